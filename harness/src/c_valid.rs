//! Validator verdicts and dominance against independent models (C08).
use crate::drv::{Cfg, Stats, run_cases};
use crate::integrity;
use crate::irgen::{self, IrCfg, IrGen};
use crate::progen::{Features, Gen};
use crate::rng::{Rng, hash_bytes};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use trunk_ir::context::{BlockData, OperationDataBuilder, RegionData};
use trunk_ir::dominance::DominatorTree;
use trunk_ir::rewrite::Module;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::validation::{self, ValidationError};
use trunk_ir::{BlockRef, IrContext, OpRef, RegionRef, Span, Symbol, TypeRef, ValueRef};

type Key = (String, String, usize);

/// Operands inside functions that refer to a value not defined in an enclosing region of the
/// same function.
fn scope_model(ctx: &IrContext, op: OpRef, out: &mut BTreeSet<Key>) {
    let d = ctx.op(op);
    if d.name == *"func" && (d.dialect == *"func" || d.dialect == *"wasm") {
        let name = d.attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_else(|| "<unnamed>".into());
        for &r in d.regions.iter() {
            let mut stack: Vec<(RegionRef, Vec<RegionRef>)> = vec![(r, vec![])];
            while let Some((r, mut above)) = stack.pop() {
                above.push(r);
                for &b in ctx.region(r).blocks.iter() {
                    for &o in ctx.block(b).ops.iter() {
                        for (i, &v) in ctx.op_operands(o).iter().enumerate() {
                            let home = match ctx.value_def(v) {
                                trunk_ir::ValueDef::OpResult(q, _) => ctx.op(q).parent_block,
                                trunk_ir::ValueDef::BlockArg(q, _) => Some(q),
                            };
                            let home = home.and_then(|b| ctx.block(b).parent_region);
                            if !home.is_some_and(|h| above.contains(&h)) {
                                out.insert((name.clone(), format!("{}.{}", ctx.op(o).dialect, ctx.op(o).name), i));
                            }
                        }
                        for &n in ctx.op(o).regions.iter() {
                            stack.push((n, above.clone()));
                        }
                    }
                }
            }
        }
    }
    for &r in d.regions.iter() {
        for &b in ctx.region(r).blocks.iter() {
            for &o in ctx.block(b).ops.iter() {
                scope_model(ctx, o, out);
            }
        }
    }
}

struct Verdict {
    scope: BTreeSet<Key>,
    uses: usize,
    ops: Vec<String>,
}

fn verdict(ctx: &IrContext, m: Module) -> Verdict {
    let mut v = Verdict { scope: BTreeSet::new(), uses: 0, ops: vec![] };
    for e in validation::validate_all(ctx, m).errors {
        match e {
            ValidationError::StaleValue { function_name, consumer_op, operand_index, .. } => {
                v.scope.insert((function_name, consumer_op, operand_index));
            }
            ValidationError::UseChain { .. } => v.uses += 1,
            ValidationError::Operation { message } => v.ops.push(message),
        }
    }
    v
}

fn all_ops(ctx: &IrContext, root: OpRef) -> Vec<OpRef> {
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(ctx, root, &mut t, &mut vec![]);
    t.ops
}

fn gen_module(ctx: &mut IrContext, r: &mut Rng) -> OpRef {
    let ic = IrCfg { depth: r.below(4), max_ops: *r.pick(&[6, 20, 60]), max_blocks: 4, nested_modules: true, attrs: r.chance(30), aliases: false, weird_names: false, crowded: false, wide: *r.pick(&[4, 4, 9]) };
    IrGen::new(ctx, r, ic).module(0)
}

/// Does the recorded use list of every value in the tree match the operands exactly?
fn uses_model(ctx: &IrContext, root: OpRef) -> bool {
    let ops = all_ops(ctx, root);
    let mut have: HashSet<(ValueRef, OpRef, u32)> = HashSet::new();
    let mut vals: HashSet<ValueRef> = HashSet::new();
    for &o in &ops {
        if o == root {
            continue;
        }
        for (i, &v) in ctx.op_operands(o).iter().enumerate() {
            have.insert((v, o, i as u32));
            vals.insert(v);
        }
        vals.extend(ctx.op_results(o));
    }
    for &o in &ops {
        for &r in ctx.op(o).regions.iter() {
            for &b in ctx.region(r).blocks.iter() {
                vals.extend(ctx.block_args(b));
            }
        }
    }
    let mut rec = HashSet::new();
    for &v in &vals {
        for u in ctx.uses(v) {
            rec.insert((v, u.user, u.operand_index));
        }
    }
    rec == have
}

struct Shape<'a> {
    ctx: &'a mut IrContext,
    r: &'a mut Rng,
    loc: Location,
    i1: TypeRef,
    i32: TypeRef,
    f64: TypeRef,
    never: TypeRef,
}

impl Shape<'_> {
    fn core(ctx: &mut IrContext, n: &str) -> TypeRef {
        ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::from_dynamic(n)).build())
    }
    fn place(&mut self, at: (BlockRef, OpRef), d: OperationDataBuilder) -> OpRef {
        let d = d.build(self.ctx);
        let o = self.ctx.create_op(d);
        self.ctx.insert_op_before(at.0, at.1, o);
        o
    }
    fn value(&mut self, at: (BlockRef, OpRef), t: TypeRef) -> ValueRef {
        let d = OperationDataBuilder::new(self.loc, Symbol::new("test"), Symbol::new("val")).result(t);
        let o = self.place(at, d);
        self.ctx.op_result(o, 0)
    }
    fn region(&mut self, blocks: Vec<BlockRef>) -> RegionRef {
        self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.into_iter().collect(), parent_op: None })
    }
    fn block(&mut self) -> BlockRef {
        self.ctx.create_block(BlockData { location: self.loc, args: Default::default(), ops: Default::default(), parent_region: None })
    }
    fn push(&mut self, b: BlockRef, dialect: &str, name: &str, operands: Vec<ValueRef>, res: Vec<TypeRef>) -> OpRef {
        let d = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(dialect), Symbol::from_dynamic(name)).operands(operands).results(res).build(self.ctx);
        let o = self.ctx.create_op(d);
        self.ctx.push_op(b, o);
        o
    }
    /// A random operation with a verifier, and whether it is well-formed.
    fn op(&mut self, at: (BlockRef, OpRef)) -> (OpRef, bool, &'static str) {
        match self.r.below(6) {
            0 => {
                let p = *self.r.pick(&["oeq", "une", "olt", "ole", "ogt", "oge", "ueq", "one", "ult", "eq", "slt", "OEQ", "", "ord"]);
                let ok = ["oeq", "une", "olt", "ole", "ogt", "oge"].contains(&p);
                let (a, b) = (self.value(at, self.f64), self.value(at, self.f64));
                let mut d = OperationDataBuilder::new(self.loc, Symbol::new("arith"), Symbol::new("cmpf")).operands([a, b]).result(self.i1);
                let how = self.r.below(8);
                if how == 0 {
                    d = d.attr(Symbol::new("predicate"), Attribute::String(p.into()));
                } else if how != 1 {
                    d = d.attr(Symbol::new("predicate"), Attribute::Symbol(Symbol::from_dynamic(p)));
                }
                (self.place(at, d), ok && how > 1, "arith.cmpf")
            }
            1 | 2 => {
                let mut ok = true;
                let nops = if self.r.chance(10) { *self.r.pick(&[0usize, 2]) } else { 1 };
                ok &= nops == 1;
                let nreg = if self.r.chance(10) { *self.r.pick(&[0usize, 1, 3]) } else { 2 };
                ok &= nreg == 2;
                let never = self.r.chance(25);
                let res: Vec<TypeRef> = if never { vec![self.never] } else { vec![self.i32; self.r.below(3)] };
                let bad = if self.r.chance(35) { Some(self.r.below(nreg.max(1))) } else { None };
                let mut regions = vec![];
                for k in 0..nreg {
                    let b = self.block();
                    let mut blocks = vec![b];
                    let mut vals = vec![];
                    for _ in 0..self.r.below(3) {
                        let o = self.push(b, "test", "val", vec![], vec![self.i32]);
                        vals.push(self.ctx.op_result(o, 0));
                    }
                    let v = if let Some(v) = vals.first() {
                        *v
                    } else {
                        let o = self.push(b, "test", "val", vec![], vec![self.i32]);
                        self.ctx.op_result(o, 0)
                    };
                    // a correct terminator for this region, or one defect
                    let tail = never && self.r.chance(60);
                    if bad == Some(k) {
                        match self.r.below(5) {
                            0 => {
                                // wrong number of yielded values
                                let n = if res.is_empty() { 1 + self.r.below(2) } else { *self.r.pick(&[res.len() - 1, res.len() + 1]) };
                                self.push(b, "scf", "yield", vec![v; n], vec![]);
                            }
                            1 => {
                                // not a terminator for this region
                                let n = *self.r.pick(&["return", "br", "jump"]);
                                self.push(b, if n == "return" { "func" } else { "cf" }, n, vec![], vec![]);
                            }
                            2 if !never => {
                                let (d, n) = *self.r.pick(&[("func", "tail_call"), ("func", "unreachable"), ("func", "tail_call_indirect_"), ("ability", "perform"), ("scf", "switch")]);
                                self.push(b, d, n, vec![], vec![]);
                            }
                            3 => {
                                // the yield is not last
                                self.push(b, "scf", "yield", vec![v; res.len()], vec![]);
                                self.push(b, "test", "val", vec![], vec![self.i32]);
                            }
                            _ => {
                                let extra = self.block();
                                self.push(extra, "scf", "yield", vec![], vec![]);
                                self.push(b, "scf", "yield", vec![v; res.len()], vec![]);
                                blocks.push(extra);
                            }
                        }
                        if nreg == 2 {
                            ok = false;
                        }
                    } else if tail {
                        let (d, n) = *self.r.pick(&[("func", "tail_call"), ("func", "unreachable"), ("ability", "perform"), ("ability", "handle_dispatch")]);
                        self.push(b, d, n, vec![], vec![]);
                    } else {
                        self.push(b, "scf", "yield", vec![v; res.len()], vec![]);
                    }
                    regions.push(self.region(blocks));
                }
                let conds: Vec<ValueRef> = (0..nops).map(|_| self.value(at, self.i1)).collect();
                let mut d = OperationDataBuilder::new(self.loc, Symbol::new("scf"), Symbol::new("if")).operands(conds).results(res);
                for r in regions {
                    d = d.region(r);
                }
                (self.place(at, d), ok, "scf.if")
            }
            3 => {
                let n = self.r.below(4);
                let b = self.block();
                self.push(b, "scf", "continue", vec![], vec![]);
                let r = self.region(vec![b]);
                let d = OperationDataBuilder::new(self.loc, Symbol::new("scf"), Symbol::new("loop")).results(vec![self.i32; n]).region(r);
                (self.place(at, d), n <= 1, "scf.loop")
            }
            4 => {
                let n = self.r.below(2);
                let v = self.value(at, self.i32);
                let b = self.block();
                self.push(b, "scf", "yield", vec![], vec![]);
                let r = self.region(vec![b]);
                let d = OperationDataBuilder::new(self.loc, Symbol::new("scf"), Symbol::new("switch")).operand(v).results(vec![self.i32; n]).region(r);
                (self.place(at, d), n == 0, "scf.switch")
            }
            _ => {
                let mut ok = true;
                let pool = [self.i32, self.i1, self.f64];
                let params: Vec<TypeRef> = (0..self.r.below(4)).map(|_| *self.r.pick(&pool)).collect();
                let ret = if self.r.chance(12) { self.i32 } else { self.never };
                ok &= ret == self.never;
                let mut fb = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(ret);
                for &p in &params {
                    fb = fb.param(p);
                }
                let mut ft = self.ctx.types.intern(fb.build());
                match self.r.below(12) {
                    0..=3 => ft = self.ctx.types.intern(TypeDataBuilder::new(Symbol::new("closure"), Symbol::new("closure")).param(ft).build()),
                    4 => {
                        ft = self.i32;
                        ok = false;
                    }
                    5 => {
                        ft = self.ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).build());
                        ok = false;
                    }
                    6 => {
                        let k = *self.r.pick(&[0usize, 2]);
                        let mut b = TypeDataBuilder::new(Symbol::new("closure"), Symbol::new("closure"));
                        for _ in 0..k {
                            b = b.param(ft);
                        }
                        ft = self.ctx.types.intern(b.build());
                        ok = false;
                    }
                    _ => {}
                }
                let mut args = params.clone();
                if self.r.chance(15) {
                    match self.r.below(3) {
                        0 => {
                            args.push(self.i32);
                            ok = false;
                        }
                        1 if !args.is_empty() => {
                            args.pop();
                            ok = false;
                        }
                        _ if !args.is_empty() => {
                            let k = self.r.below(args.len());
                            args[k] = if args[k] == self.i32 { self.f64 } else { self.i32 };
                            ok = false;
                        }
                        _ => {}
                    }
                }
                let mut vs = vec![];
                if self.r.chance(94) {
                    vs.push(self.value(at, ft));
                    for t in args {
                        vs.push(self.value(at, t));
                    }
                } else {
                    ok = false;
                }
                let nres = if self.r.chance(8) { 1 } else { 0 };
                ok &= nres == 0;
                let d = OperationDataBuilder::new(self.loc, Symbol::new("func"), Symbol::new("tail_call_indirect")).operands(vs).results(vec![self.i32; nres]);
                (self.place(at, d), ok, "func.tail_call_indirect")
            }
        }
    }
}

pub fn check_valid(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("A case is one module (well-formed or with defects placed at random depth) or one control-flow graph; distinct by structure.".into());
    // well-formed modules are accepted and left alone
    st.merge(run_cases(cfg, "accept", cfg.n(1500, 20_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let op = if r.chance(60) {
            gen_module(&mut ctx, &mut r)
        } else {
            let mut f = Features::opt();
            f.strict_loops = true;
            let t = Gen::new(&mut r, f).module();
            c.input(t.clone());
            let m = trunk_ir::parser::parse_module(&mut ctx, &t).expect("generated program parses");
            for _ in 0..r.below(4) {
                let s = crate::c_opt::any_step(&mut r);
                let mm = Module::new(&ctx, m).unwrap();
                crate::c_opt::apply(&mut ctx, mm, &s).expect("step");
            }
            m
        };
        c.input(trunk_ir::printer::print_module(&ctx, op));
        let m = Module::new(&ctx, op).unwrap();
        let before = irgen::dump(&ctx, op);
        let v = verdict(&ctx, m);
        let mut model = BTreeSet::new();
        scope_model(&ctx, op, &mut model);
        if !model.is_empty() || !uses_model(&ctx, op) {
            c.skip("module is not well-formed by the model");
            return;
        }
        if !v.scope.is_empty() || v.uses != 0 || !v.ops.is_empty() {
            c.violation(format!("a well-formed module is rejected: {:?} {} {:?}", v.scope.iter().next(), v.uses, v.ops.first()));
            return;
        }
        if irgen::dump(&ctx, op) != before || !integrity::check_links(&ctx, op).is_empty() {
            c.violation("validation changed the module");
        }
        c.st.count("well-formed modules accepted", 1);
        c.distinct(&before);
    }));
    // scope
    st.merge(run_cases(cfg, "scope", cfg.n(4000, 60_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let op = gen_module(&mut ctx, &mut r);
        let ops: Vec<OpRef> = all_ops(&ctx, op).into_iter().filter(|o| *o != op).collect();
        for &o in &ops {
            if ctx.op(o).dialect == *"func" && r.chance(25) {
                ctx.op_mut(o).dialect = Symbol::new("wasm");
            }
        }
        let users: Vec<OpRef> = ops.iter().copied().filter(|o| !ctx.op_operands(*o).is_empty()).collect();
        let mut vals: Vec<ValueRef> = ops.iter().flat_map(|o| ctx.op_results(*o).to_vec()).collect();
        for &o in &ops {
            for &g in ctx.op(o).regions.iter() {
                for &b in ctx.region(g).blocks.iter() {
                    vals.extend(ctx.block_args(b));
                }
            }
        }
        // an operation taken out of the module keeps its results in use
        let mut gone = None;
        if r.chance(20) && !ops.is_empty() {
            let o = *r.pick(&ops);
            if ctx.op(o).regions.is_empty() && ctx.op_results(o).iter().any(|v| ctx.has_uses(*v)) {
                let b = ctx.op(o).parent_block.unwrap();
                ctx.remove_op_from_block(b, o);
                gone = Some(o);
            }
        }
        if !users.is_empty() {
            for _ in 0..r.below(4) {
                let u = *r.pick(&users);
                let k = r.below(ctx.op_operands(u).len());
                let v = *r.pick(&vals);
                ctx.set_op_operand(u, k as u32, v);
            }
        }
        c.input(irgen::dump(&ctx, op));
        let m = Module::new(&ctx, op).unwrap();
        let mut model = BTreeSet::new();
        scope_model(&ctx, op, &mut model);
        let v = verdict(&ctx, m);
        if v.scope != model {
            let extra: Vec<&Key> = v.scope.difference(&model).collect();
            let missed: Vec<&Key> = model.difference(&v.scope).collect();
            c.violation(format!("scope verdict differs: not reported {missed:?}, reported without cause {extra:?}"));
            return;
        }
        if gone.is_none() && v.uses != 0 {
            c.violation("use lists are consistent but were reported");
            return;
        }
        c.st.count(if model.is_empty() { "modules in scope" } else { "modules with out-of-scope uses" }, 1);
        c.st.count("out-of-scope uses", model.len() as u64);
        c.distinct(&irgen::dump(&ctx, op));
    }));
    // use lists
    st.merge(run_cases(cfg, "uses", cfg.n(3000, 40_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let op = gen_module(&mut ctx, &mut r);
        let ops: Vec<OpRef> = all_ops(&ctx, op).into_iter().filter(|o| *o != op).collect();
        if ops.is_empty() {
            return;
        }
        let n = r.below(3);
        for _ in 0..n {
            let (a, b) = (*r.pick(&ops), *r.pick(&ops));
            // write past the bookkeeping
            let l = ctx.op(b).operands.clone();
            match r.below(3) {
                0 => ctx.op_mut(a).operands = l,
                1 => ctx.op_mut(a).operands = Default::default(),
                _ => {
                    let k = ctx.op(a).operands.clone();
                    ctx.op_mut(a).operands = l;
                    ctx.op_mut(b).operands = k;
                }
            }
        }
        c.input(irgen::dump(&ctx, op));
        let m = Module::new(&ctx, op).unwrap();
        let good = uses_model(&ctx, op);
        let e = validation::validate_use_chains(&ctx, m);
        if e.is_ok() != good {
            c.violation(format!("use lists {} the operands, the validator says: {e}", if good { "match" } else { "do not match" }));
            return;
        }
        c.st.count(if good { "consistent use lists" } else { "stale use lists" }, 1);
        c.distinct(&irgen::dump(&ctx, op));
    }));
    // operations with a verifier
    st.merge(run_cases(cfg, "operations", cfg.n(4000, 60_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let op = gen_module(&mut ctx, &mut r);
        let spots: Vec<OpRef> = all_ops(&ctx, op).into_iter().filter(|o| *o != op && ctx.op(*o).parent_block.is_some()).collect();
        if spots.is_empty() {
            return;
        }
        let p = ctx.paths.intern("v".into());
        let loc = Location::new(p, Span::new(0, 0));
        let (i1, i32, f64, never) = (Shape::core(&mut ctx, "i1"), Shape::core(&mut ctx, "i32"), Shape::core(&mut ctx, "f64"), Shape::core(&mut ctx, "never"));
        let mut want: BTreeMap<OpRef, (bool, &'static str)> = BTreeMap::new();
        for _ in 0..1 + r.below(3) {
            let s = *r.pick(&spots);
            let at = (ctx.op(s).parent_block.unwrap(), s);
            let mut sh = Shape { ctx: &mut ctx, r: &mut r, loc, i1, i32, f64, never };
            let (o, ok, k) = sh.op(at);
            want.insert(o, (ok, k));
        }
        c.input(irgen::dump(&ctx, op));
        let m = Module::new(&ctx, op).unwrap();
        let v = verdict(&ctx, m);
        if v.uses != 0 {
            c.violation("use lists are consistent but were reported");
            return;
        }
        for (o, (ok, k)) in &want {
            let tag = format!("({o})");
            let hit = v.ops.iter().any(|m| m.contains(&tag) && m.contains(k));
            if hit == *ok {
                c.violation(format!("{} {k} {o} is {}", if *ok { "well-formed" } else { "malformed" }, if hit { "rejected" } else { "accepted" }));
                return;
            }
            c.st.count(&format!("{} {k}", if *ok { "accepted" } else { "rejected" }), 1);
        }
        let bad = want.values().filter(|w| !w.0).count();
        if bad == 0 && !v.ops.is_empty() {
            c.violation(format!("only well-formed operations, but: {}", v.ops[0]));
            return;
        }
        c.distinct(&irgen::dump(&ctx, op));
    }));
    // call arity
    st.merge(run_cases(cfg, "arity", cfg.n(800, 10_000), |c| {
        let mut r = c.rng.clone();
        let nf = 2 + r.below(4);
        let ar: Vec<usize> = (0..nf).map(|_| r.below(4)).collect();
        let mut t = String::from("core.module @m {\n");
        let mut want: Vec<(String, usize, usize, usize)> = vec![];
        for (i, a) in ar.iter().enumerate() {
            let ps: Vec<String> = (0..*a).map(|k| format!("%p{k}: core.i32")).collect();
            t.push_str(&format!("  func.func @f{i}({}) -> core.i32 {{\n    %c = arith.const {{value = 1}} : core.i32\n    %b = arith.const {{value = true}} : core.i1\n", ps.join(", ")));
            for j in 0..r.below(4) {
                let g = r.below(nf + 1);
                let n = if g < nf && r.chance(60) { ar[g] } else { r.below(5) };
                let args = vec!["%c"; n].join(", ");
                let call = format!("%r{j} = func.call {args} {{callee = @f{g}}} : core.i32\n");
                if r.chance(40) {
                    t.push_str(&format!("    %q{j} = scf.if %b : core.i32 {{\n      {call}      scf.yield %r{j}\n    }} {{\n      scf.yield %c\n    }}\n"));
                } else {
                    t.push_str(&format!("    {call}"));
                }
                if g < nf && n != ar[g] {
                    want.push((format!("f{i}"), g, n, ar[g]));
                }
            }
            t.push_str("    func.return %c\n  }\n");
        }
        t.push_str("}\n");
        c.input(t.clone());
        let mut ctx = IrContext::new();
        let op = trunk_ir::parser::parse_module(&mut ctx, &t).expect("parses");
        let m = Module::new(&ctx, op).unwrap();
        validation::validate_call_arity(&ctx, m);
        let d = ctx.take_diagnostics();
        if d.len() != want.len() {
            c.violation(format!("{} wrong calls, {} warnings", want.len(), d.len()));
            return;
        }
        for (w, d) in want.iter().zip(&d) {
            let (f, g, n, a) = w;
            if !(d.message.contains(&format!("'{f}'")) && d.message.contains(&format!("'f{g}'")) && d.message.contains(&format!("{n}")) && d.message.contains(&format!("{a}"))) {
                c.violation(format!("the warning for the call of f{g} in {f} with {n} instead of {a} arguments says: {}", d.message));
                return;
            }
        }
        c.st.count("calls with wrong arity", want.len() as u64);
        c.distinct(&t);
    }));
    // dominance
    st.merge(run_cases(cfg, "dominance", cfg.n(20_000, 300_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let p = ctx.paths.intern("d".into());
        let loc = Location::new(p, Span::new(0, 0));
        let n = 1 + r.below(*r.clone().pick(&[3usize, 6, 10, 16]));
        let mk = |ctx: &mut IrContext| ctx.create_block(BlockData { location: loc, args: Default::default(), ops: Default::default(), parent_region: None });
        let blocks: Vec<BlockRef> = (0..n).map(|_| mk(&mut ctx)).collect();
        let _other = {
            let b = mk(&mut ctx);
            ctx.create_region(RegionData { location: loc, blocks: [b].into_iter().collect(), parent_op: None })
        };
        let stranger = ctx.region(_other).blocks[0];
        let region = ctx.create_region(RegionData { location: loc, blocks: blocks.iter().copied().collect(), parent_op: None });
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        let mut outside = false;
        let density = 1 + r.below(3);
        let mut text = format!("{n} blocks:");
        for i in 0..n {
            if r.chance(12) {
                continue; // no terminator at all
            }
            if r.chance(20) {
                // an earlier operation's successors do not count
                let mut d = OperationDataBuilder::new(loc, Symbol::new("test"), Symbol::new("odd"));
                if r.chance(30) {
                    d = d.successor(*r.pick(&blocks));
                }
                let d = d.build(&mut ctx);
                let o = ctx.create_op(d);
                ctx.push_op(blocks[i], o);
            }
            let mut d = OperationDataBuilder::new(loc, Symbol::new("test"), Symbol::new("br"));
            for _ in 0..r.below(density + 1) {
                if r.chance(1) {
                    d = d.successor(stranger);
                    outside = true;
                    continue;
                }
                let k = if r.chance(40) { (i + 1) % n } else { r.below(n) };
                adj[i].push(k);
                d = d.successor(blocks[k]);
            }
            let d = d.build(&mut ctx);
            let o = ctx.create_op(d);
            ctx.push_op(blocks[i], o);
            text.push_str(&format!(" {i}->{:?}", adj[i]));
        }
        c.input(text.clone());
        let dt = DominatorTree::compute(&ctx, region);
        let reach = |without: Option<usize>| -> Vec<bool> {
            let mut seen = vec![false; n];
            if without == Some(0) {
                return seen;
            }
            let mut w = vec![0usize];
            seen[0] = true;
            while let Some(x) = w.pop() {
                for &y in &adj[x] {
                    if !seen[y] && Some(y) != without {
                        seen[y] = true;
                        w.push(y);
                    }
                }
            }
            seen
        };
        let all = reach(None);
        if dt.entry() != Some(blocks[0]) || dt.region() != region || dt.is_valid() == outside {
            c.violation(format!("entry, region or validity wrong (valid {}, successor outside {outside})", dt.is_valid()));
            return;
        }
        for a in 0..n {
            if dt.is_reachable(blocks[a]) != all[a] {
                c.violation(format!("block {a} reachable: {}", all[a]));
                return;
            }
            let cut = reach(Some(a));
            for b in 0..n {
                let want = all[b] && all[a] && (a == b || !cut[b]);
                if dt.dominates(blocks[a], blocks[b]) != want {
                    c.violation(format!("block {a} dominates block {b}: {want}, the analysis says {}", !want));
                    return;
                }
            }
            let mut preds: Vec<BlockRef> = vec![];
            for (i, s) in adj.iter().enumerate() {
                for &k in s {
                    if k == a {
                        preds.push(blocks[i]);
                    }
                }
            }
            let mut have = dt.predecessors(blocks[a]).to_vec();
            let (mut x, mut y): (BTreeSet<BlockRef>, BTreeSet<BlockRef>) = (have.drain(..).collect(), preds.drain(..).collect());
            if x != y {
                c.violation(format!("predecessors of block {a} differ"));
                return;
            }
            x = dt.successors(blocks[a]).iter().copied().filter(|b| *b != stranger).collect();
            y = adj[a].iter().map(|k| blocks[*k]).collect();
            if x != y {
                c.violation(format!("successors of block {a} differ"));
                return;
            }
        }
        c.st.count("dominance facts compared", (n * n) as u64);
        c.st.count(if all.iter().all(|x| *x) { "graphs fully reachable" } else { "graphs with unreachable blocks" }, 1);
        if outside {
            c.st.count("graphs leaving the region", 1);
        }
        c.st.distinct.insert(hash_bytes(text.as_bytes()));
    }));
    st
}
