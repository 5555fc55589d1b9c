//! Effect handlers: direct-style control programs keep their meaning through CPS conversion,
//! evidence lowering and code generation.
use crate::drv::{run_cases, Case, Cfg, Stats};
use crate::eff;
use crate::nat;
use crate::pipeline::{self, NativeOpts};
use std::rc::Rc;
use tribute_ir::dialect::tribute_control;
use trunk_ir::parser::parse_module;
use trunk_ir::{IrContext, Module, OpRef, Symbol};

/// The operation declarations that the performs and handlers of a program agree on.
pub fn declarations(ctx: &IrContext, root: OpRef) -> Vec<tribute_control::OperationDeclaration> {
    fn visit(ctx: &IrContext, op: OpRef, out: &mut Vec<tribute_control::OperationDeclaration>, seen: &mut Vec<(trunk_ir::TypeRef, Symbol)>) {
        let d = ctx.op(op);
        if d.dialect == Symbol::new("tribute_control") {
            let a = d.attributes.get_type("ability_ref");
            let n = d.attributes.get_symbol("op_name");
            if let (Some(a), Some(n)) = (a, n) {
                if !seen.contains(&(a, n)) {
                    seen.push((a, n));
                    if d.name == Symbol::new("perform") {
                        let ps: Vec<_> = ctx.op_operands(op).iter().map(|v| ctx.value_ty(*v)).collect();
                        let r = ctx.op_result_types(op)[0];
                        out.push(tribute_control::OperationDeclaration::new(a, n, d.attributes.get_symbol("operation_kind").unwrap(), ps, r));
                    } else {
                        let r = d.attributes.get_type("operation_result_type").unwrap();
                        let kind = d.attributes.get_symbol("kind").unwrap();
                        let b = ctx.region(d.regions[0]).blocks[0];
                        let mut ps: Vec<_> = ctx.block(b).args.iter().map(|x| x.ty).collect();
                        if ps.last().is_some_and(|t| ctx.types.get(*t).name == Symbol::new("resume_token")) {
                            ps.pop();
                        }
                        out.push(tribute_control::OperationDeclaration::new(a, n, kind, ps, r));
                    }
                }
            }
        }
        for r in &d.regions {
            for b in &ctx.region(*r).blocks {
                for o in &ctx.block(*b).ops {
                    visit(ctx, *o, out, seen);
                }
            }
        }
    }
    let (mut out, mut seen) = (vec![], vec![]);
    visit(ctx, root, &mut out, &mut seen);
    out
}

pub fn effcmp(text: &str) -> i32 {
    let mut ctx = IrContext::new();
    let op = match parse_module(&mut ctx, text) {
        Ok(o) => o,
        Err(e) => {
            println!("parse: {e:?}");
            return 2;
        }
    };
    crate::c_native::attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let d = declarations(&ctx, op);
    if let Err(e) = tribute_passes::tribute_control_to_cps::tribute_control_to_cps(&mut ctx, m, &d) {
        println!("cps: {e}");
        return 2;
    }
    extern_bodies(&mut ctx, m);
    if std::env::var_os("VH_DUMPC").is_some() {
        println!("{}", trunk_ir::printer::print_module(&ctx, m.op()));
    }
    if let Err(e) = pipeline::shared(&mut ctx, m) {
        println!("shared: {e}");
        return 2;
    }
    if std::env::var_os("VH_DUMPS").is_some() {
        println!("{}", trunk_ir::printer::print_module(&ctx, m.op()));
    }
    if std::env::var_os("VH_W").is_some() {
        match pipeline::wasm_late(&mut ctx, m) {
            Ok(b) => {
                std::fs::write("/tmp/e.wasm", &b).unwrap();
                let r = crate::c_wasm::execute("/tmp/e.wasm", &[vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]], false);
                match r {
                    Ok(r) => println!("{:?} {}", r[0].events, r[0].end),
                    Err(e) => println!("wasm: {e}"),
                }
            }
            Err(e) => println!("wasm: {e}"),
        }
        return 0;
    }
    let obj = match pipeline::native_late(&mut ctx, m, NativeOpts::from_bits(std::env::var("VH_BITS").ok().and_then(|s| s.parse().ok()).unwrap_or(7))) {
        Ok(o) => o,
        Err(e) => {
            println!("native: {e}");
            return 2;
        }
    };
    match nat::link("/tmp", "eff", &obj) {
        Ok(exe) => {
            let r = nat::run("/tmp", "eff", &exe, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], true);
            println!("{r:?}");
        }
        Err(e) => println!("link: {e}"),
    }
    0
}

/// Declarations of foreign functions carry an unreachable body from here on.
pub fn extern_bodies(ctx: &mut IrContext, m: Module) {
    use trunk_ir::context::{BlockArgData, BlockData, RegionData};
    use trunk_ir::ops::DialectOp;
    let b = m.first_block(ctx).unwrap();
    for op in ctx.block(b).ops.to_vec() {
        let Ok(f) = trunk_ir::dialect::func::Func::from_op(ctx, op) else { continue };
        if !ctx.op(op).regions.is_empty() {
            continue;
        }
        let (loc, ty) = (ctx.op(op).location, f.r#type(ctx));
        let params: Vec<_> = ctx.types.get(ty).params[1..].to_vec();
        let block = ctx.create_block(BlockData {
            location: loc,
            args: params.into_iter().map(|ty| BlockArgData { ty, attrs: Default::default() }).collect(),
            ops: Default::default(),
            parent_region: None,
        });
        let u = trunk_ir::dialect::func::unreachable(ctx, loc);
        ctx.push_op(block, u.op_ref());
        let region = ctx.create_region(RegionData { location: loc, blocks: [block].into_iter().collect(), parent_op: None });
        let name = f.sym_name(ctx);
        let n = trunk_ir::dialect::func::func(ctx, loc, name, ty, region);
        for (k, v) in ctx.op(op).attributes.clone().iter() {
            ctx.op_mut(n.op_ref()).attributes.insert(*k, v.clone());
        }
        ctx.insert_op_before(b, op, n.op_ref());
        ctx.remove_op_from_block(b, op);
    }
}

/// Debugging aid: generate one program and compare the routes.
pub fn effone(seed: u64) -> i32 {
    let mut rng = crate::rng::Rng::new(seed);
    let p = std::rc::Rc::new(crate::eff::Gen::new(&mut rng).program());
    let text = crate::eff::emit(&p);
    let inputs: Vec<u64> = (0..16).map(|i| i * 7 + 3).collect();
    std::fs::write(format!("/tmp/eo/{seed}.ir"), &text).unwrap();
    let r = match crate::eff::reference(&p, &inputs) {
        Ok(m) => m,
        Err(e) => {
            println!("reference: {e}");
            return 3;
        }
    };
    println!("ref  {:?}", r.events);
    let mut ctx = IrContext::new();
    let op = match parse_module(&mut ctx, &text) {
        Ok(o) => o,
        Err(e) => {
            println!("parse: {e:?}");
            return 2;
        }
    };
    crate::c_native::attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let wasm = std::env::var_os("VH_W").is_some();
    if let Err(e) = pipeline::shared(&mut ctx, m) {
        println!("shared: {e}");
        return 2;
    }
    if wasm {
        match pipeline::wasm_late(&mut ctx, m) {
            Ok(b) => {
                let f = format!("/tmp/eo/{seed}.wasm");
                std::fs::write(&f, &b).unwrap();
                match crate::c_wasm::execute(&f, &[inputs], false) {
                    Ok(x) => {
                        println!("wasm {:?} {}", x[0].events, x[0].end);
                        return (x[0].events != r.events || x[0].end != "return") as i32;
                    }
                    Err(e) => println!("wasm: {e}"),
                }
            }
            Err(e) => println!("wasm: {e}"),
        }
        return 2;
    }
    let bits = std::env::var("VH_BITS").ok().and_then(|s| s.parse().ok()).unwrap_or(7);
    match pipeline::native_late(&mut ctx, m, NativeOpts::from_bits(bits)) {
        Ok(o) => match nat::link("/tmp/eo", &format!("e{seed}"), &o) {
            Ok(exe) => {
                let x = nat::run("/tmp/eo", &format!("e{seed}"), &exe, &inputs, true);
                println!("nat  {x:?}");
                return (x.obs.events != r.events || !x.mem.is_empty() || x.obs.end != "return") as i32;
            }
            Err(e) => println!("link: {e}"),
        },
        Err(e) => println!("native: {e}"),
    }
    2
}

/// Debugging aid: compile one program text natively and run it.
pub fn efffile(text: &str) -> i32 {
    let inputs: Vec<u64> = (0..16).map(|i| i * 7 + 3).collect();
    let mut ctx = IrContext::new();
    let op = match parse_module(&mut ctx, text) {
        Ok(o) => o,
        Err(e) => {
            println!("parse: {e:?}");
            return 2;
        }
    };
    crate::c_native::attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    if let Err(e) = pipeline::shared(&mut ctx, m) {
        println!("shared: {e}");
        return 2;
    }
    if std::env::var_os("VH_DUMPS").is_some() {
        println!("{}", trunk_ir::printer::print_module(&ctx, m.op()));
    }
    if std::env::var_os("VH_W").is_some() {
        match pipeline::wasm_late(&mut ctx, m) {
            Ok(b) => {
                std::fs::write("/tmp/e.wasm", &b).unwrap();
                if std::env::var_os("VH_DIS").is_some() {
                    crate::c_wasm::disassemble(&b);
                }
                match crate::c_wasm::execute("/tmp/e.wasm", &[inputs], false) {
                    Ok(x) => println!("wasm {:?} {}", x[0].events, x[0].end),
                    Err(e) => println!("wasm: {e}"),
                }
            }
            Err(e) => println!("wasm: {e}"),
        }
        return 0;
    }
    let bits = std::env::var("VH_BITS").ok().and_then(|s| s.parse().ok()).unwrap_or(7);
    match pipeline::native_late(&mut ctx, m, NativeOpts::from_bits(bits)) {
        Ok(o) => match nat::link("/tmp/eo", "file", &o) {
            Ok(exe) => println!("nat  {:?}", nat::run_mode("/tmp/eo", "file", &exe, &inputs, if std::env::var_os("VH_K").is_some() { nat::Heap::Keep } else { nat::Heap::Guarded })),
            Err(e) => println!("link: {e}"),
        },
        Err(e) => println!("native: {e}"),
    }
    0
}

pub fn check_effect(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "handlers", cfg.n(1100, 40_000), |c| {
        let p = Rc::new(eff::Gen::new(&mut c.rng).program());
        effect_case(c, &p);
    });
    let w = run_cases(cfg, "witness", 1, |c| {
        let p = Rc::new(finished_handler());
        let text = eff::emit(&p);
        c.input(text.clone());
        let want = eff::reference(&p, &[]).unwrap_or_else(|e| panic!("harness: {e}"));
        let Some(exe) = compile(c, &text, NativeOpts::PRODUCTION) else { return };
        let r = nat::run(c.work(), &format!("f{}", c.worker), &exe, &[], true);
        if r.obs.events == want.events {
            return;
        }
        let got: Vec<_> = r.obs.events.iter().map(|e| e.args.join(",")).collect();
        if got == ["i32:2", "i32:2"] && r.mem.is_empty() {
            c.st.known.push("after an inner handler for an ability has finished normally, the same ability performed by the rest of the enclosing handled computation still goes to the finished handler".into());
        } else {
            c.violation(format!("operations after a finished handler: reference {:?} native {:?} end {} mem {:?}", want.events, r.obs.events, r.obs.end, r.mem));
        }
    });
    st.merge(w);
    st.rules.push("random programs with nested and shadowing handlers, operations that answer in place, resume once (in tail position, before further work, or under a freshly installed handler) or abandon the computation, effectful closures and functions of every calling convention; a direct-style reference evaluator gives the expected calls to the host; the program, lowered to continuation-passing IR as the front end does it, goes through the real shared and native stages under a random reference-counting policy and is run next to the real runtime on a guarded heap. Traces must be equal and no released object may be touched. Non-trivial = at least one operation reached a handler and at least two events were compared.".into());
    st
}

fn compile(c: &mut Case, text: &str, o: NativeOpts) -> Option<String> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    crate::c_native::attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let obj = match pipeline::shared(&mut ctx, m).and_then(|_| pipeline::native_late(&mut ctx, m, o)) {
        Ok(b) => b,
        Err(e) => {
            c.violation(format!("compilation failed ({o:?}): {e}"));
            return None;
        }
    };
    match nat::link(c.work(), &format!("f{}", c.worker), &obj) {
        Ok(exe) => Some(exe),
        Err(e) => {
            if e.contains("harness-env:") {
                panic!("{e}");
            }
            c.violation(format!("native object does not link: {}", e.chars().take(400).collect::<String>()));
            None
        }
    }
}

fn effect_case(c: &mut Case, p: &Rc<eff::Prog>) {
    let text = eff::emit(p);
    if text.len() > 160_000 {
        c.skip("program too large");
        return;
    }
    let inputs: Vec<Vec<u64>> = (0..3)
        .map(|i| (0..16).map(|k| if i == 0 { k * 7 + 3 } else { c.rng.below(64) as u64 }).collect())
        .collect();
    c.input(format!("; inputs {inputs:x?}\n{text}"));
    let mut want = vec![];
    for i in &inputs {
        match eff::reference(p, i) {
            Ok(m) => want.push(m),
            Err(e) => {
                c.skip(e);
                return;
            }
        }
    }
    let o = if c.rng.chance(60) { NativeOpts::PRODUCTION } else { NativeOpts::from_bits(c.rng.below(8) as u32) };
    pipeline::set_inline(c.rng.chance(70));
    let Some(exe) = compile(c, &text, o) else { return };
    let mut real = false;
    for (i, w) in want.iter().enumerate() {
        let r = nat::run(c.work(), &format!("f{}", c.worker), &exe, &inputs[i], true);
        let s = &w.seen;
        for (k, n) in [
            ("native executions", 1),
            ("events compared", r.obs.events.len() as u64),
            ("operations performed", s.performs),
            ("operations answered in place", s.fn_ops),
            ("handlers installed", s.handles),
            ("handlers installed over one for the same ability", s.shadowed),
            ("resumptions", s.resumes),
            ("computations abandoned by a handler", s.escapes),
        ] {
            c.st.count(k, n);
        }
        c.st.max("deepest handler nesting", s.deepest);
        if r.timed_out {
            c.violation(format!("input {i}: native program did not stop"));
            return;
        }
        if !r.mem.is_empty() {
            c.violation(format!("input {i} {o:?}: {}", r.mem.join("; ")));
            return;
        }
        if r.obs.events != w.events || r.obs.end != "return" {
            let n = w.events.iter().zip(&r.obs.events).take_while(|(a, b)| a == b).count();
            c.violation(format!(
                "input {i} {o:?}: at event {n} reference {:?}; native {:?} end {}",
                w.events.get(n), r.obs.events.get(n), r.obs.end
            ));
            return;
        }
        real |= s.performs + s.fn_ops > 0 && w.events.len() > 1;
    }
    if real {
        c.distinct(&text);
        c.sample(|| format!("inputs {:x?} events {}\n{text}", inputs[0], want[0].events.len()));
    }
}

/// `handle A { handle A { perform } (resume 2); perform } (resume 1)`, both answers recorded
fn finished_handler() -> eff::Prog {
    use eff::*;
    let h = |n: i64, body: E, dov: usize| {
        E::Handle(Rc::new(H {
            body,
            ty: T::I,
            dov,
            dob: E::Var(dov, T::I),
            arms: vec![Arm { op: 0, params: vec![], body: E::Resume(Rc::new(E::Int(n)), T::I) }],
            abilities: vec![0],
        }))
    };
    let inner = h(2, E::Perform(0, vec![]), 1);
    let rec = |v| E::Rec(Rc::new(E::Var(v, T::I)), T::I);
    let body = E::Let(
        2,
        T::I,
        Rc::new(inner),
        Rc::new(E::Let(
            3,
            T::I,
            Rc::new(rec(2)),
            Rc::new(E::Let(4, T::I, Rc::new(E::Perform(0, vec![])), Rc::new(E::Let(5, T::I, Rc::new(rec(4)), Rc::new(E::Var(4, T::I)))))),
        )),
    );
    let E::Handle(outer) = h(1, body, 6) else { unreachable!() };
    Prog {
        same: false,
        abilities: 1,
        ops: vec![OpDecl { ability: 0, name: "op0".into(), general: true, params: vec![], result: T::I }],
        sigs: vec![],
        funcs: vec![],
        main: Some(E::Let(7, T::I, Rc::new(E::HandleSrc(outer)), Rc::new(E::Nil))),
    }
}
