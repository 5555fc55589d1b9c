//! Pass pipelines: recorded traces against a model, with failures injected everywhere (C10).
use crate::drv::{Case, Cfg, Stats, guard, run_cases};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use trunk_ir::analysis::{Analysis, AnalysisCache};
use trunk_ir::context::{BlockData, OperationDataBuilder, RegionData};
use trunk_ir::dialect::{arith, core, func, wasm};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::{PassErrorKind, PassManager, PassRunResult, VerifyError, pass_fn};
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::{IrContext, OpRef, Span, Symbol};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Module,
    Func,
    Wasm,
    Addi,
}

/// The operation tree as the model sees it.
#[derive(Clone, Debug, Default)]
struct World {
    kind: BTreeMap<u32, Kind>,
    kids: BTreeMap<u32, Vec<u32>>,
    parent: BTreeMap<u32, u32>,
}
impl World {
    fn preorder(&self, root: u32, out: &mut Vec<u32>) {
        out.push(root);
        for k in self.kids.get(&root).into_iter().flatten() {
            self.preorder(*k, out);
        }
    }
    fn under(&self, root: u32, mut x: u32) -> bool {
        loop {
            if x == root {
                return true;
            }
            match self.parent.get(&x) {
                Some(p) => x = *p,
                None => return false,
            }
        }
    }
    fn erase(&mut self, x: u32) {
        if let Some(p) = self.parent.remove(&x) {
            self.kids.get_mut(&p).unwrap().retain(|k| *k != x);
        }
    }
}

#[derive(Clone, Debug)]
enum Act {
    Nothing,
    EraseSelf,
    Erase(u32),
    Append(u32, Kind),
    Retag(u32),
    RetagSelf,
}
#[derive(Clone, Debug)]
struct PassSpec {
    uid: u32,
    name: &'static str,
    /// on this target id, do this
    acts: Vec<(u32, Act)>,
    fail_on: Option<u32>,
}
#[derive(Clone, Debug)]
struct Mgr {
    kind: Kind,
    passes: Vec<PassSpec>,
    nested: Vec<Mgr>,
    /// hook id and the (pass, target) it objects to
    verifier: Option<(u32, Option<u32>)>,
    instr: Option<u32>,
}

const NAMES: [&str; 6] = ["alpha", "beta", "gamma", "delta", "alpha", "omega"];

fn gen_mgr(r: &mut Rng, kind: Kind, depth: usize, ids: &[u32], next: &mut u32, fail: bool) -> Mgr {
    let np = if depth == 0 { r.below(4) } else { r.below(3) };
    let mut passes = vec![];
    for _ in 0..np {
        *next += 1;
        let uid = *next;
        let mut acts = vec![];
        if r.chance(35) {
            let on = *r.pick(ids);
            *next += 1;
            let a = match r.below(6) {
                0 => Act::EraseSelf,
                1 | 2 => Act::Erase(*r.pick(ids)),
                3 => Act::Append(1000 + *next, *r.pick(&[Kind::Func, Kind::Wasm])),
                4 => Act::Retag(*r.pick(ids)),
                _ => Act::RetagSelf,
            };
            acts.push((on, a));
        }
        passes.push(PassSpec { uid, name: NAMES[r.below(NAMES.len())], acts, fail_on: if fail && r.chance(12) { Some(*r.pick(ids)) } else { None } });
    }
    let nn = if depth >= 3 { 0 } else { r.below(3) };
    let mut nested = vec![];
    for _ in 0..nn {
        let k = match r.below(20) {
            0..=8 => Kind::Func,
            9..=12 => Kind::Wasm,
            13..=18 => Kind::Module,
            _ => Kind::Addi,
        };
        nested.push(gen_mgr(r, k, depth + 1, ids, next, fail));
    }
    *next += 2;
    Mgr {
        kind,
        passes,
        nested,
        verifier: if r.chance(if depth == 0 { 60 } else { 20 }) { Some((*next, if fail && r.chance(40) { Some(*r.pick(ids)) } else { None })) } else { None },
        instr: if r.chance(if depth == 0 { 70 } else { 20 }) { Some(*next + 1) } else { None },
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Run(u32, u32),
    Inst(u32, String, u32),
    Verify(u32, u32),
}

/// What the pipeline must do.
struct Model {
    w: World,
    root: u32,
    log: Vec<Ev>,
}
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    Exec(String, u32),
    Verify(String, u32),
    Anchor,
}
impl Model {
    fn run(&mut self, m: &Mgr, target: u32, ver: Option<(u32, Option<u32>)>, inst: Option<u32>) -> Result<(), Fail> {
        let ver = m.verifier.or(ver);
        let inst = m.instr.or(inst);
        let attached = self.w.parent.contains_key(&target);
        for p in &m.passes {
            self.log.push(Ev::Run(p.uid, target));
            if p.fail_on == Some(target) {
                return Err(Fail::Exec(p.name.into(), p.uid));
            }
            for (on, a) in &p.acts {
                if *on == target {
                    self.act(a, target);
                }
            }
            if self.w.kind[&target] != m.kind || (attached && !self.w.parent.contains_key(&target)) {
                return Ok(());
            }
            if let Some(h) = inst {
                self.log.push(Ev::Inst(h, p.name.into(), target));
            }
            if let Some((h, bad)) = ver {
                self.log.push(Ev::Verify(h, target));
                if bad == Some(target) {
                    return Err(Fail::Verify(p.name.into(), h));
                }
            }
        }
        for n in &m.nested {
            let mut ts = vec![];
            self.w.preorder(target, &mut ts);
            ts.retain(|x| self.w.kind[x] == n.kind);
            for t in ts {
                if self.w.kind[&t] != n.kind || !self.w.under(target, t) {
                    continue;
                }
                if n.kind == Kind::Addi {
                    return Err(Fail::Anchor);
                }
                self.run(n, t, ver, inst)?;
            }
        }
        Ok(())
    }
    fn act(&mut self, a: &Act, target: u32) {
        match a {
            Act::Nothing => {}
            Act::EraseSelf => {
                if target != self.root {
                    self.w.erase(target);
                }
            }
            Act::Erase(x) => {
                if *x != self.root && !self.w.under(*x, target) {
                    self.w.erase(*x);
                }
            }
            Act::Append(id, k) => {
                let root = self.root;
                self.w.kind.insert(*id, *k);
                self.w.kids.entry(root).or_default().push(*id);
                self.w.parent.insert(*id, root);
            }
            Act::Retag(x) => self.retag(*x),
            Act::RetagSelf => self.retag(target),
        }
    }
    fn retag(&mut self, x: u32) {
        let k = self.w.kind.get_mut(&x).unwrap();
        *k = match *k {
            Kind::Func => Kind::Wasm,
            Kind::Wasm => Kind::Func,
            k => k,
        };
    }
}

/// The same actions on the real module.
struct Real {
    ops: RefCell<HashMap<u32, OpRef>>,
    log: RefCell<Vec<Ev>>,
    root: u32,
    loc: Location,
    done: RefCell<Vec<u32>>,
}
fn oid(ctx: &IrContext, o: OpRef) -> u32 {
    ctx.op(o).attributes.get_i128("id").unwrap_or(-1) as u32
}
fn make(ctx: &mut IrContext, loc: Location, id: u32, k: Kind, kids: &[OpRef]) -> OpRef {
    let t = |ctx: &mut IrContext, n: &'static str| ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new(n)).build());
    let nil = t(ctx, "nil");
    let ft = ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(nil).build());
    let (d, n) = match k {
        Kind::Module => ("core", "module"),
        Kind::Func => ("func", "func"),
        Kind::Wasm => ("wasm", "func"),
        Kind::Addi => ("arith", "addi"),
    };
    let mut b = OperationDataBuilder::new(loc, Symbol::new(d), Symbol::new(n)).attr(Symbol::new("id"), Attribute::Int(id as i128));
    if k == Kind::Addi {
        let i32 = t(ctx, "i32");
        let d = OperationDataBuilder::new(loc, Symbol::new("t"), Symbol::new("v")).result(i32).build(ctx);
        let v = ctx.create_op(d);
        let v = ctx.op_result(v, 0);
        b = b.operands([v, v]).result(i32);
    } else {
        let bl = ctx.create_block(BlockData { location: loc, args: vec![], ops: Default::default(), parent_region: None });
        for &o in kids {
            ctx.push_op(bl, o);
        }
        let r = ctx.create_region(RegionData { location: loc, blocks: [bl].into_iter().collect(), parent_op: None });
        b = b.attr(Symbol::new("sym_name"), Attribute::Symbol(Symbol::from_dynamic(&format!("s{id}")))).region(r);
        if k != Kind::Module {
            b = b.attr(Symbol::new("type"), Attribute::Type(ft));
        }
    }
    let d = b.build(ctx);
    ctx.create_op(d)
}
impl Real {
    fn under(&self, ctx: &IrContext, top: OpRef, mut x: OpRef) -> bool {
        loop {
            if x == top {
                return true;
            }
            match ctx.op(x).parent_block.and_then(|b| ctx.block(b).parent_region).and_then(|r| ctx.region(r).parent_op) {
                Some(p) => x = p,
                None => return false,
            }
        }
    }
    fn act(&self, ctx: &mut IrContext, a: &Act, target: OpRef) {
        let get = |x: &u32| self.ops.borrow()[x];
        let retag = |ctx: &mut IrContext, o: OpRef| {
            if ctx.op(o).name == *"func" {
                let d = if ctx.op(o).dialect == *"func" { "wasm" } else { "func" };
                ctx.op_mut(o).dialect = Symbol::new(d);
            }
        };
        let erase = |ctx: &mut IrContext, o: OpRef| {
            if ctx.op(o).parent_block.is_some() {
                trunk_ir::rewrite::erase_op(ctx, o);
            }
        };
        match a {
            Act::Nothing => {}
            Act::EraseSelf => {
                if oid(ctx, target) != self.root {
                    erase(ctx, target);
                }
            }
            Act::Erase(x) => {
                if *x != self.root && !self.under(ctx, get(x), target) {
                    erase(ctx, get(x));
                }
            }
            Act::Append(id, k) => {
                let o = make(ctx, self.loc, *id, *k, &[]);
                self.ops.borrow_mut().insert(*id, o);
                let root = get(&self.root);
                let b = ctx.region(ctx.op(root).regions[0]).blocks[0];
                ctx.push_op(b, o);
            }
            Act::Retag(x) => {
                let o = get(x);
                retag(ctx, o)
            }
            Act::RetagSelf => retag(ctx, target),
        }
    }
}

#[derive(Debug)]
struct Boom(u32);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom {}", self.0)
    }
}
impl std::error::Error for Boom {}

fn build<T: DialectOp + 'static>(pm: &mut PassManager<T>, m: &Mgr, real: &Rc<Real>) {
    // hooks may be installed before or after the passes
    for p in m.passes.clone() {
        let real = real.clone();
        pm.add_pass(pass_fn(p.name, move |ctx: &mut IrContext, t: T| -> PassRunResult {
            let id = oid(ctx, t.op_ref());
            real.log.borrow_mut().push(Ev::Run(p.uid, id));
            if p.fail_on == Some(id) {
                return Err(Box::new(Boom(p.uid)));
            }
            for (on, a) in &p.acts {
                if *on == id {
                    real.act(ctx, a, t.op_ref());
                    real.done.borrow_mut().push(p.uid);
                }
            }
            Ok(())
        }));
    }
    if let Some((h, bad)) = m.verifier {
        let real = real.clone();
        pm.with_verifier(move |ctx, o| {
            let id = oid(ctx, o);
            real.log.borrow_mut().push(Ev::Verify(h, id));
            if bad == Some(id) { Err(VerifyError { message: format!("bad {h}") }) } else { Ok(()) }
        });
    }
    if let Some(h) = m.instr {
        let real = real.clone();
        pm.with_instrumentation(move |ctx, n, o| real.log.borrow_mut().push(Ev::Inst(h, n.to_string(), oid(ctx, o))));
    }
    for n in &m.nested {
        match n.kind {
            Kind::Module => build::<core::Module>(pm.nest(), n, real),
            Kind::Func => build::<func::Func>(pm.nest(), n, real),
            Kind::Wasm => build::<wasm::Func>(pm.nest(), n, real),
            Kind::Addi => build::<arith::Addi>(pm.nest(), n, real),
        }
    }
}

fn pipeline_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ctx = IrContext::new();
    let p = ctx.paths.intern("p".into());
    let loc = Location::new(p, Span::new(0, 0));
    let mut w = World::default();
    let mut ops = HashMap::new();
    let mut next = 0u32;
    fn tree(ctx: &mut IrContext, r: &mut Rng, loc: Location, k: Kind, depth: usize, next: &mut u32, w: &mut World, ops: &mut HashMap<u32, OpRef>) -> (u32, OpRef) {
        *next += 1;
        let id = *next;
        let mut kids = vec![];
        let mut refs = vec![];
        let n = if k == Kind::Addi || depth > 3 { 0 } else if depth == 0 { 1 + r.below(5) } else { r.below(3) };
        for _ in 0..n {
            let kk = match r.below(10) {
                0..=4 => Kind::Func,
                5 | 6 => Kind::Wasm,
                7 | 8 => Kind::Module,
                _ => Kind::Addi,
            };
            let (i, o) = tree(ctx, r, loc, kk, depth + 1, next, w, ops);
            kids.push(i);
            refs.push(o);
        }
        let o = make(ctx, loc, id, k, &refs);
        ops.insert(id, o);
        w.kind.insert(id, k);
        for i in &kids {
            w.parent.insert(*i, id);
        }
        w.kids.insert(id, kids);
        (id, o)
    }
    let (root, rop) = tree(&mut ctx, &mut r, loc, Kind::Module, 0, &mut next, &mut w, &mut ops);
    let ids: Vec<u32> = w.kind.keys().copied().collect();
    let fail = r.chance(50);
    let mut uid = 0;
    let m = gen_mgr(&mut r, Kind::Module, 0, &ids, &mut uid, fail);
    c.input(format!("{w:?}\nroot {root}\n{m:#?}"));
    let real = Rc::new(Real { ops: RefCell::new(ops), log: RefCell::new(vec![]), root, loc, done: RefCell::new(vec![]) });
    let mut pm = PassManager::<core::Module>::new();
    build(&mut pm, &m, &real);
    let mut model = Model { w, root, log: vec![] };
    // the same manager can be run again
    for round in 0..1 + r.below(2) {
        model.log.clear();
        real.log.borrow_mut().clear();
        let want = model.run(&m, root, None, None);
        let t = core::Module::from_op(&ctx, rop).unwrap();
        let got = match guard(|| pm.run(&mut ctx, t)) {
            Ok(g) => g,
            Err(e) => {
                c.violation(format!("round {round}: running the pipeline panicked: {e}"));
                return;
            }
        };
        let log = real.log.borrow().clone();
        if log != model.log {
            let k = log.iter().zip(&model.log).take_while(|(a, b)| a == b).count();
            c.violation(format!("round {round}: event {k} is {:?}, should be {:?}", log.get(k), model.log.get(k)));
            return;
        }
        let ok = match (&want, &got) {
            (Ok(()), Ok(())) => true,
            (Err(Fail::Exec(n, u)), Err(e)) => e.pass_name() == n && matches!(e.kind(), PassErrorKind::Execution(x) if x.to_string() == format!("boom {u}")),
            (Err(Fail::Verify(n, h)), Err(e)) => e.pass_name() == n && matches!(e.kind(), PassErrorKind::Verification(x) if x.message == format!("bad {h}")),
            (Err(Fail::Anchor), Err(e)) => matches!(e.kind(), PassErrorKind::Verification(_)) && e.to_string().contains("arith.addi"),
            _ => false,
        };
        if !ok {
            c.violation(format!("round {round}: outcome {:?}, should be {want:?}", got.map_err(|e| e.to_string())));
            return;
        }
        c.st.count("events compared", log.len() as u64);
        c.st.count(
            match want {
                Ok(()) => "pipelines that complete",
                Err(Fail::Exec(..)) => "pipelines stopped by a failing pass",
                Err(Fail::Verify(..)) => "pipelines stopped by verification",
                Err(Fail::Anchor) => "pipelines refused for their anchor",
            },
            1,
        );
        c.st.max("events in one run", log.len() as u64);
        // what Append created in the first round must not be created twice
        if !real.done.borrow().is_empty() || want.is_err() {
            break;
        }
    }
    c.st.count("structural edits by passes", real.done.borrow().len() as u64);
    c.distinct(&format!("{m:?}{:?}", model.w));
}

thread_local! {
    static COMPUTED: Cell<u64> = const { Cell::new(0) };
}
macro_rules! analysis {
    ($n:ident) => {
        struct $n(OpRef, u64);
        impl Analysis for $n {
            fn compute(_: &IrContext, t: OpRef) -> Self {
                COMPUTED.with(|c| c.set(c.get() + 1));
                $n(t, COMPUTED.with(|c| c.get()))
            }
        }
    };
}
analysis!(A0);
analysis!(A1);
analysis!(A2);

fn analysis_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ctx = IrContext::new();
    let p = ctx.paths.intern("p".into());
    let loc = Location::new(p, Span::new(0, 0));
    let ops: Vec<OpRef> = (0..4).map(|i| make(&mut ctx, loc, i, Kind::Func, &[])).collect();
    let mut cache = AnalysisCache::new();
    let mut model: BTreeMap<(usize, OpRef), u64> = BTreeMap::new();
    let mut held: Vec<(Arc<A0>, u64)> = vec![];
    let mut log = String::new();
    for _ in 0..*r.pick(&[10, 40, 120]) {
        let (k, o) = (r.below(3), *r.pick(&ops));
        let what = r.below(12);
        log.push_str(&format!("{what}/{k}/{o} "));
        c.input(log.clone());
        macro_rules! each {
            ($t:ident) => {
                match what {
                    0..=5 => {
                        let before = COMPUTED.with(|c| c.get());
                        let a = cache.get::<$t>(&ctx, o);
                        let after = COMPUTED.with(|c| c.get());
                        let want = *model.entry((k, o)).or_insert(after);
                        if a.1 != want || a.0 != o || (after != before) != (want == after && after != before) || after > before + 1 {
                            c.violation(format!("get of analysis {k} of {o} gives computation {} of {}, should be {want} of {o}", a.1, a.0));
                            return;
                        }
                        c.st.count(if after == before { "cache hits" } else { "computations" }, 1);
                    }
                    6 | 7 => {
                        let a = cache.get_cached::<$t>(o).map(|a| (a.1, a.0));
                        let want = model.get(&(k, o)).map(|n| (*n, o));
                        if a != want {
                            c.violation(format!("cached analysis {k} of {o}: {a:?}, should be {want:?}"));
                            return;
                        }
                    }
                    _ => {
                        cache.invalidate::<$t>(o);
                        model.remove(&(k, o));
                        c.st.count("invalidations", 1);
                    }
                }
            };
        }
        match what {
            0..=9 => match k {
                0 => each!(A0),
                1 => each!(A1),
                _ => each!(A2),
            },
            10 => {
                cache.invalidate_all(o);
                model.retain(|x, _| x.1 != o);
            }
            _ if r.chance(15) => {
                cache.clear();
                model.clear();
            }
            _ => {
                let a = cache.get::<A0>(&ctx, o);
                let n = *model.entry((0, o)).or_insert(a.1);
                held.push((a, n));
            }
        }
        if cache.len() != model.len() || cache.is_empty() != model.is_empty() {
            c.violation(format!("{} cached analyses, should be {}", cache.len(), model.len()));
            return;
        }
    }
    if held.iter().any(|(a, n)| a.1 != *n) {
        c.violation("an analysis held by a caller changed");
    }
    c.distinct(&log);
}

pub fn check_pass(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("A case is one pipeline tree with edits and failures placed in it, run on one operation tree; the recorded events and the outcome are compared with the model. Distinct by pipeline and resulting tree.".into());
    st.merge(run_cases(cfg, "pipelines", cfg.n(20_000, 300_000), pipeline_case));
    st.merge(run_cases(cfg, "analyses", cfg.n(4000, 50_000), analysis_case));
    let _ = Act::Nothing;
    st
}
