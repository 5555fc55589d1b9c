//! Edit histories on the IR graph against an independent model (C07).
use crate::drv::{Cfg, Stats, guard, run_cases};
use crate::irgen;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::ControlFlow;
use trunk_ir::context::{BlockArgData, BlockData, OperationDataBuilder, RegionData};
use trunk_ir::ir_mapping::IrMapping;
use trunk_ir::rewrite::helpers::{erase_op, inline_region_blocks, split_block};
use trunk_ir::types::{Attribute, AttributeMap, Location, TypeDataBuilder};
use trunk_ir::walk::{WalkAction, walk_op, walk_region};
use trunk_ir::{BlockRef, IrContext, OpRef, RegionRef, Span, Symbol, TypeRef, ValueDef, ValueRef};

#[derive(Clone, Debug, Default)]
struct MOp {
    name: String,
    operands: Vec<ValueRef>,
    results: Vec<ValueRef>,
    rtys: Vec<TypeRef>,
    attr: i128,
    regions: Vec<RegionRef>,
    succ: Vec<BlockRef>,
    parent: Option<BlockRef>,
}
#[derive(Clone, Debug, Default)]
struct MBlock {
    args: Vec<ValueRef>,
    atys: Vec<TypeRef>,
    ops: Vec<OpRef>,
    parent: Option<RegionRef>,
}
#[derive(Clone, Debug, Default)]
struct MRegion {
    blocks: Vec<BlockRef>,
    parent: Option<OpRef>,
}
#[derive(Default)]
struct Model {
    ops: BTreeMap<OpRef, MOp>,
    blocks: BTreeMap<BlockRef, MBlock>,
    regions: BTreeMap<RegionRef, MRegion>,
    /// every value handed out so far, with its defining entity while that is alive
    values: Vec<ValueRef>,
}

impl Model {
    fn subtree(&self, op: OpRef, out: &mut Vec<OpRef>) {
        out.push(op);
        for r in &self.ops[&op].regions {
            for b in &self.regions[r].blocks {
                for &o in &self.blocks[b].ops {
                    self.subtree(o, out);
                }
            }
        }
    }
    fn blocks_under(&self, op: OpRef) -> BTreeSet<BlockRef> {
        let mut s = vec![];
        self.subtree(op, &mut s);
        s.iter().flat_map(|o| self.ops[o].regions.iter()).flat_map(|r| self.regions[r].blocks.iter().copied()).collect()
    }
    fn uses(&self) -> HashMap<ValueRef, Vec<(OpRef, u32)>> {
        let mut m: HashMap<ValueRef, Vec<(OpRef, u32)>> = HashMap::new();
        for (&o, d) in &self.ops {
            for (i, &v) in d.operands.iter().enumerate() {
                m.entry(v).or_default().push((o, i as u32));
            }
        }
        m
    }
    /// values whose definition is alive
    fn live_values(&self) -> Vec<ValueRef> {
        let mut v: Vec<ValueRef> = self.ops.values().flat_map(|o| o.results.iter().copied()).collect();
        v.extend(self.blocks.values().flat_map(|b| b.args.iter().copied()));
        v
    }

    /// Compare the whole observable graph with the model.
    fn check(&self, ctx: &IrContext) -> Result<u64, String> {
        let mut facts = 0u64;
        for (&o, d) in &self.ops {
            let c = ctx.op(o);
            if ctx.op_operands(o) != d.operands.as_slice() {
                return Err(format!("{o}: operands {:?}, should be {:?}", ctx.op_operands(o), d.operands));
            }
            if ctx.op_results(o) != d.results.as_slice() || ctx.op_result_types(o) != d.rtys.as_slice() {
                return Err(format!("{o}: results {:?} of types {:?}, should be {:?} {:?}", ctx.op_results(o), ctx.op_result_types(o), d.results, d.rtys));
            }
            if c.regions.as_slice() != d.regions.as_slice() || c.successors.as_slice() != d.succ.as_slice() {
                return Err(format!("{o}: regions or successors differ"));
            }
            if c.parent_block != d.parent {
                return Err(format!("{o}: parent block {:?}, should be {:?}", c.parent_block, d.parent));
            }
            if c.name != *d.name.as_str() || c.attributes.get_i128("id") != Some(d.attr) {
                return Err(format!("{o}: name or attributes changed"));
            }
            for (i, &v) in d.results.iter().enumerate() {
                if ctx.value_def(v) != ValueDef::OpResult(o, i as u32) || ctx.value_ty(v) != d.rtys[i] || ctx.op_result(o, i as u32) != v {
                    return Err(format!("{v} should be result {i} of {o}, is {:?}", ctx.value_def(v)));
                }
            }
            facts += 6 + d.operands.len() as u64;
        }
        for (&b, d) in &self.blocks {
            let c = ctx.block(b);
            if c.ops.as_slice() != d.ops.as_slice() {
                return Err(format!("{b}: operations {:?}, should be {:?}", c.ops, d.ops));
            }
            if c.parent_region != d.parent {
                return Err(format!("{b}: parent region {:?}, should be {:?}", c.parent_region, d.parent));
            }
            if ctx.block_args(b) != d.args.as_slice() || c.args.len() != d.args.len() {
                return Err(format!("{b}: arguments {:?}, should be {:?}", ctx.block_args(b), d.args));
            }
            for (i, &v) in d.args.iter().enumerate() {
                if ctx.value_def(v) != ValueDef::BlockArg(b, i as u32) || ctx.value_ty(v) != d.atys[i] || ctx.block_arg(b, i as u32) != v {
                    return Err(format!("{v} should be argument {i} of {b}, is {:?} of type {:?}", ctx.value_def(v), ctx.value_ty(v)));
                }
            }
            facts += 3 + d.args.len() as u64;
        }
        for (&r, d) in &self.regions {
            let c = ctx.region(r);
            if c.blocks.as_slice() != d.blocks.as_slice() || c.parent_op != d.parent {
                return Err(format!("{r}: blocks {:?} parent {:?}, should be {:?} {:?}", c.blocks, c.parent_op, d.blocks, d.parent));
            }
            facts += 2;
        }
        let want = self.uses();
        for &v in &self.values {
            let mut have: Vec<(OpRef, u32)> = ctx.uses(v).iter().map(|u| (u.user, u.operand_index)).collect();
            let mut w = want.get(&v).cloned().unwrap_or_default();
            have.sort();
            w.sort();
            if have != w {
                return Err(format!("{v}: recorded uses {have:?}, actual uses {w:?}"));
            }
            if ctx.has_uses(v) == w.is_empty() {
                return Err(format!("{v}: has_uses is {} with {} uses", ctx.has_uses(v), w.len()));
            }
            facts += 1;
        }
        Ok(facts)
    }
}

struct Hist<'a> {
    ctx: IrContext,
    m: Model,
    r: &'a mut Rng,
    loc: Location,
    tys: Vec<TypeRef>,
    next: i128,
    log: Vec<String>,
    max_ops: usize,
}

/// Two subtrees are isomorphic: same shape, and operands correspond under `map` (inside) or
/// through `outside` (references leaving the tree).
fn iso(ctx: &IrContext, a: OpRef, b: OpRef, vm: &mut HashMap<ValueRef, ValueRef>, bm: &mut HashMap<BlockRef, BlockRef>, pairs: &mut Vec<(OpRef, OpRef)>) -> Result<(), String> {
    let (x, y) = (ctx.op(a), ctx.op(b));
    if a == b {
        return Err(format!("clone of {a} is itself"));
    }
    if x.dialect != y.dialect || x.name != y.name || x.attributes != y.attributes || x.location != y.location {
        return Err(format!("clone {b} of {a}: different kind, attributes or location"));
    }
    if ctx.op_result_types(a) != ctx.op_result_types(b) || x.regions.len() != y.regions.len() || x.successors.len() != y.successors.len() {
        return Err(format!("clone {b} of {a}: different results, regions or successors"));
    }
    pairs.push((a, b));
    for (p, q) in x.regions.iter().zip(y.regions.iter()) {
        let (p, q) = (ctx.region(*p), ctx.region(*q));
        if p.blocks.len() != q.blocks.len() || p.location != q.location {
            return Err(format!("clone {b} of {a}: different number of blocks"));
        }
        for (&s, &t) in p.blocks.iter().zip(q.blocks.iter()) {
            bm.insert(s, t);
            if ctx.block(s).args.len() != ctx.block(t).args.len() || ctx.block(s).ops.len() != ctx.block(t).ops.len() {
                return Err(format!("clone {t} of {s}: different arguments or operations"));
            }
            for (i, (u, v)) in ctx.block_args(s).iter().zip(ctx.block_args(t)).enumerate() {
                vm.insert(*u, *v);
                if ctx.value_ty(*u) != ctx.value_ty(*v) || ctx.block(s).args[i].attrs != ctx.block(t).args[i].attrs {
                    return Err(format!("clone {t} of {s}: argument {i} differs"));
                }
            }
            let ops: Vec<(OpRef, OpRef)> = ctx.block(s).ops.iter().copied().zip(ctx.block(t).ops.iter().copied()).collect();
            for (o, p) in ops {
                iso(ctx, o, p, vm, bm, pairs)?;
            }
        }
    }
    for (u, v) in ctx.op_results(a).iter().zip(ctx.op_results(b)) {
        vm.insert(*u, *v);
    }
    Ok(())
}

impl Hist<'_> {
    fn ty(&mut self) -> TypeRef {
        *self.r.pick(&self.tys)
    }
    fn new_block(&mut self) -> BlockRef {
        let k = self.r.below(3);
        let atys: Vec<TypeRef> = (0..k).map(|_| self.ty()).collect();
        let args = atys.iter().map(|&ty| BlockArgData { ty, attrs: AttributeMap::new() }).collect();
        let b = self.ctx.create_block(BlockData { location: self.loc, args, ops: Default::default(), parent_region: None });
        let vs = self.ctx.block_args(b).to_vec();
        self.m.values.extend(&vs);
        self.m.blocks.insert(b, MBlock { args: vs, atys, ops: vec![], parent: None });
        b
    }
    fn new_region(&mut self) -> RegionRef {
        let k = 1 + self.r.below(3);
        let bs: Vec<BlockRef> = (0..k).map(|_| self.new_block()).collect();
        let r = self.ctx.create_region(RegionData { location: self.loc, blocks: bs.iter().copied().collect(), parent_op: None });
        for b in &bs {
            self.m.blocks.get_mut(b).unwrap().parent = Some(r);
        }
        self.m.regions.insert(r, MRegion { blocks: bs, parent: None });
        r
    }
    fn create(&mut self, regions: Vec<RegionRef>, nres: usize, nopd: usize) -> OpRef {
        self.next += 1;
        let id = self.next;
        let name = self.r.pick(&["a", "b", "c"]).to_string();
        let vals = self.m.live_values();
        let mut operands = vec![];
        for _ in 0..nopd {
            if !vals.is_empty() {
                operands.push(*self.r.pick(&vals));
            }
        }
        let rtys: Vec<TypeRef> = (0..nres).map(|_| self.ty()).collect();
        let succ: Vec<BlockRef> = if self.r.chance(15) {
            let bs: Vec<BlockRef> = self.m.blocks.keys().copied().collect();
            (0..1 + self.r.below(2)).filter_map(|_| if bs.is_empty() { None } else { Some(*self.r.pick(&bs)) }).collect()
        } else {
            vec![]
        };
        let mut o = OperationDataBuilder::new(self.loc, Symbol::new("t"), Symbol::from_dynamic(&name)).attr(Symbol::new("id"), Attribute::Int(id));
        o = o.operands(operands.iter().copied()).results(rtys.iter().copied());
        for &r in &regions {
            o = o.region(r);
        }
        for &s in &succ {
            o = o.successor(s);
        }
        let d = o.build(&mut self.ctx);
        let op = self.ctx.create_op(d);
        let results = self.ctx.op_results(op).to_vec();
        self.m.values.extend(&results);
        for r in &regions {
            self.m.regions.get_mut(r).unwrap().parent = Some(op);
        }
        self.m.ops.insert(op, MOp { name, operands, results, rtys, attr: id, regions, succ, parent: None });
        op
    }
    fn any_op(&mut self) -> Option<OpRef> {
        let v: Vec<OpRef> = self.m.ops.keys().copied().collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn detached(&mut self) -> Option<OpRef> {
        let v: Vec<OpRef> = self.m.ops.iter().filter(|(_, d)| d.parent.is_none()).map(|(o, _)| *o).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn attached(&mut self) -> Option<OpRef> {
        let v: Vec<OpRef> = self.m.ops.iter().filter(|(_, d)| d.parent.is_some()).map(|(o, _)| *o).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn block_outside(&mut self, op: OpRef) -> Option<BlockRef> {
        let under = self.m.blocks_under(op);
        let v: Vec<BlockRef> = self.m.blocks.keys().copied().filter(|b| !under.contains(b)).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn any_value(&mut self) -> Option<ValueRef> {
        let v = self.m.live_values();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn unlink(&mut self, op: OpRef) {
        if let Some(b) = self.m.ops[&op].parent {
            self.m.blocks.get_mut(&b).unwrap().ops.retain(|o| *o != op);
            self.m.ops.get_mut(&op).unwrap().parent = None;
        }
    }
    fn link(&mut self, op: OpRef, b: BlockRef, at: Option<OpRef>) {
        let ops = &mut self.m.blocks.get_mut(&b).unwrap().ops;
        match at.and_then(|a| ops.iter().position(|o| *o == a)) {
            Some(i) => ops.insert(i, op),
            None => ops.push(op),
        }
        self.m.ops.get_mut(&op).unwrap().parent = Some(b);
    }
    /// No value defined inside `op` (nor any block of it) is referenced from outside.
    fn self_contained(&self, op: OpRef) -> bool {
        let mut s = vec![];
        self.m.subtree(op, &mut s);
        let set: BTreeSet<OpRef> = s.iter().copied().collect();
        let blocks = self.m.blocks_under(op);
        let inner: BTreeSet<ValueRef> = s
            .iter()
            .skip(1)
            .flat_map(|o| self.m.ops[o].results.iter().copied())
            .chain(blocks.iter().flat_map(|b| self.m.blocks[b].args.iter().copied()))
            .collect();
        self.m.ops.iter().all(|(o, d)| set.contains(o) || (d.operands.iter().all(|v| !inner.contains(v)) && d.succ.iter().all(|b| !blocks.contains(b))))
    }
    /// Every operand inside is defined before its use in pre-order, or outside.
    fn ordered(&self, op: OpRef) -> bool {
        let mut all: BTreeSet<ValueRef> = BTreeSet::new();
        let mut s = vec![];
        self.m.subtree(op, &mut s);
        for o in &s {
            all.extend(self.m.ops[o].results.iter().copied());
        }
        for b in self.m.blocks_under(op) {
            all.extend(self.m.blocks[&b].args.iter().copied());
        }
        let mut seen: BTreeSet<ValueRef> = BTreeSet::new();
        self.order_ok(op, &all, &mut seen)
    }
    fn order_ok(&self, op: OpRef, all: &BTreeSet<ValueRef>, seen: &mut BTreeSet<ValueRef>) -> bool {
        let d = &self.m.ops[&op];
        if d.operands.iter().any(|v| all.contains(v) && !seen.contains(v)) {
            return false;
        }
        for r in &d.regions {
            for b in &self.m.regions[r].blocks {
                seen.extend(self.m.blocks[b].args.iter().copied());
            }
            for b in &self.m.regions[r].blocks {
                for &o in &self.m.blocks[b].ops {
                    if !self.order_ok(o, all, seen) {
                        return false;
                    }
                }
            }
        }
        seen.extend(d.results.iter().copied());
        true
    }
    fn forget(&mut self, op: OpRef) {
        let mut s = vec![];
        self.m.subtree(op, &mut s);
        let bs = self.m.blocks_under(op);
        for o in s {
            let d = self.m.ops.remove(&o).unwrap();
            for r in d.regions {
                self.m.regions.remove(&r);
            }
        }
        for b in bs {
            self.m.blocks.remove(&b);
        }
        // values of erased definitions must have lost all their uses inside too
    }
    /// Learn the entities a clone created.
    fn adopt(&mut self, op: OpRef) {
        let c = self.ctx.op(op);
        let d = MOp {
            name: c.name.to_string(),
            operands: self.ctx.op_operands(op).to_vec(),
            results: self.ctx.op_results(op).to_vec(),
            rtys: self.ctx.op_result_types(op).to_vec(),
            attr: c.attributes.get_i128("id").unwrap_or(-1),
            regions: c.regions.to_vec(),
            succ: c.successors.to_vec(),
            parent: c.parent_block,
        };
        self.m.values.extend(&d.results);
        let rs = d.regions.clone();
        self.m.ops.insert(op, d);
        for r in rs {
            self.adopt_region(r);
        }
    }
    fn adopt_region(&mut self, r: RegionRef) {
        let c = self.ctx.region(r);
        let blocks = c.blocks.to_vec();
        self.m.regions.insert(r, MRegion { blocks: blocks.clone(), parent: c.parent_op });
        for b in blocks {
            let c = self.ctx.block(b);
            let d = MBlock { args: self.ctx.block_args(b).to_vec(), atys: c.args.iter().map(|a| a.ty).collect(), ops: c.ops.to_vec(), parent: c.parent_region };
            self.m.values.extend(&d.args);
            let ops = d.ops.clone();
            self.m.blocks.insert(b, d);
            for o in ops {
                self.adopt(o);
            }
        }
    }

    /// One random edit. Err: the code misbehaved.
    fn step(&mut self) -> Result<&'static str, String> {
        let k = self.r.below(26);
        macro_rules! some {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok("nothing to do"),
                }
            };
        }
        macro_rules! say { ($($t:tt)*) => { self.log.push(format!($($t)*)) } }
        Ok(match k {
            0..=3 => {
                if self.m.ops.len() > self.max_ops {
                    return Ok("nothing to do");
                }
                let nr = if self.r.chance(25) { 1 + self.r.below(2) } else { 0 };
                let regions: Vec<RegionRef> = (0..nr).map(|_| self.new_region()).collect();
                let (a, b) = (self.r.below(3), self.r.below(5));
                let op = self.create(regions, a, b);
                say!("create {op}");
                if self.r.chance(80) {
                    if let Some(b) = self.block_outside(op) {
                        self.ctx.push_op(b, op);
                        self.link(op, b, None);
                        say!("push {op} to {b}");
                    }
                }
                "create"
            }
            4 => {
                let op = some!(self.detached());
                let b = some!(self.block_outside(op));
                self.ctx.push_op(b, op);
                self.link(op, b, None);
                say!("push {op} to {b}");
                "push"
            }
            5 | 6 => {
                let op = some!(self.detached());
                let b = some!(self.block_outside(op));
                let ops = self.m.blocks[&b].ops.clone();
                if ops.is_empty() {
                    return Ok("nothing to do");
                }
                let at = *self.r.pick(&ops);
                self.ctx.insert_op_before(b, at, op);
                self.link(op, b, Some(at));
                say!("insert {op} before {at} in {b}");
                "insert before"
            }
            7 => {
                let op = some!(self.attached());
                self.ctx.detach_op(op);
                self.unlink(op);
                say!("detach {op}");
                "detach"
            }
            8 => {
                let op = some!(self.attached());
                let b = self.m.ops[&op].parent.unwrap();
                self.ctx.remove_op_from_block(b, op);
                self.unlink(op);
                let t = some!(self.block_outside(op));
                self.ctx.push_op(t, op);
                self.link(op, t, None);
                say!("move {op} from {b} to {t}");
                "move"
            }
            9 | 10 => {
                let op = some!(self.any_op());
                let n = self.m.ops[&op].operands.len();
                if n == 0 {
                    return Ok("nothing to do");
                }
                let i = self.r.below(n);
                let v = some!(self.any_value());
                self.ctx.set_op_operand(op, i as u32, v);
                self.m.ops.get_mut(&op).unwrap().operands[i] = v;
                say!("set operand {i} of {op} to {v}");
                "set operand"
            }
            11 => {
                let op = some!(self.any_op());
                let v = some!(self.any_value());
                self.ctx.push_op_operand(op, v);
                self.m.ops.get_mut(&op).unwrap().operands.push(v);
                say!("push operand {v} to {op}");
                "push operand"
            }
            12 | 13 => {
                let op = some!(self.any_op());
                let n = self.m.ops[&op].operands.len();
                if n == 0 {
                    return Ok("nothing to do");
                }
                let i = self.r.below(n);
                self.ctx.remove_op_operand(op, i as u32);
                self.m.ops.get_mut(&op).unwrap().operands.remove(i);
                say!("remove operand {i} of {op}");
                "remove operand"
            }
            14 | 15 => {
                let (a, b) = (some!(self.any_value()), some!(self.any_value()));
                self.ctx.replace_all_uses(a, b);
                for d in self.m.ops.values_mut() {
                    for v in d.operands.iter_mut() {
                        if *v == a {
                            *v = b;
                        }
                    }
                }
                say!("replace {a} by {b}");
                "replace all uses"
            }
            16 => {
                let op = some!(self.any_op());
                let n = self.m.ops[&op].rtys.len();
                if n == 0 {
                    return Ok("nothing to do");
                }
                let (i, t) = (self.r.below(n), self.ty());
                self.ctx.set_op_result_type(op, i as u32, t);
                self.m.ops.get_mut(&op).unwrap().rtys[i] = t;
                "set result type"
            }
            17 => {
                let bs: Vec<BlockRef> = self.m.blocks.keys().copied().collect();
                if bs.is_empty() {
                    return Ok("nothing to do");
                }
                let b = *self.r.pick(&bs);
                let ty = self.ty();
                let front = self.r.chance(50);
                let arg = BlockArgData { ty, attrs: AttributeMap::new() };
                let v = if front { self.ctx.prepend_block_arg(b, arg) } else { self.ctx.add_block_arg(b, arg) };
                let d = self.m.blocks.get_mut(&b).unwrap();
                let at = if front { 0 } else { d.args.len() };
                d.args.insert(at, v);
                d.atys.insert(at, ty);
                self.m.values.push(v);
                say!("add argument {v} at {at} of {b}");
                if front { "prepend block argument" } else { "add block argument" }
            }
            18 => {
                let bs: Vec<BlockRef> = self.m.blocks.iter().filter(|(_, d)| !d.args.is_empty()).map(|(b, _)| *b).collect();
                if bs.is_empty() {
                    return Ok("nothing to do");
                }
                let b = *self.r.pick(&bs);
                let (i, t) = (self.r.below(self.m.blocks[&b].args.len()), self.ty());
                self.ctx.set_block_arg_type(b, i as u32, t);
                self.m.blocks.get_mut(&b).unwrap().atys[i] = t;
                "set argument type"
            }
            19 => {
                let bs: Vec<BlockRef> = self.m.blocks.iter().filter(|(_, d)| d.parent.is_some() && !d.ops.is_empty()).map(|(b, _)| *b).collect();
                if bs.is_empty() || self.m.blocks.len() > 60 {
                    return Ok("nothing to do");
                }
                let b = *self.r.pick(&bs);
                let at = self.r.below(self.m.blocks[&b].ops.len());
                let before = self.m.blocks[&b].ops[at];
                let n = split_block(&mut self.ctx, b, before);
                if self.m.blocks.contains_key(&n) {
                    return Err(format!("split of {b} returned the existing block {n}"));
                }
                let tail = self.m.blocks.get_mut(&b).unwrap().ops.split_off(at);
                for o in &tail {
                    self.m.ops.get_mut(o).unwrap().parent = Some(n);
                }
                let r = self.m.blocks[&b].parent.unwrap();
                self.m.blocks.insert(n, MBlock { ops: tail, parent: Some(r), ..Default::default() });
                let bl = &mut self.m.regions.get_mut(&r).unwrap().blocks;
                let p = bl.iter().position(|x| *x == b).unwrap();
                bl.insert(p + 1, n);
                say!("split {b} before {before} into {n}");
                "split block"
            }
            20 => {
                let rs: Vec<RegionRef> = self.m.regions.keys().copied().collect();
                if rs.len() < 2 {
                    return Ok("nothing to do");
                }
                let (s, d) = (*self.r.pick(&rs), *self.r.pick(&rs));
                // the destination must not lie inside what moves
                let mut up = Some(d);
                let mut bad = s == d;
                while let Some(r) = up {
                    let p = self.m.regions[&r].parent.and_then(|o| self.m.ops[&o].parent).and_then(|b| self.m.blocks[&b].parent);
                    bad |= p == Some(s);
                    up = p;
                }
                if bad {
                    return Ok("nothing to do");
                }
                let db = self.m.regions[&d].blocks.clone();
                let before = if db.is_empty() || self.r.chance(40) { None } else { Some(*self.r.pick(&db)) };
                let moved = inline_region_blocks(&mut self.ctx, s, d, before);
                let want = std::mem::take(&mut self.m.regions.get_mut(&s).unwrap().blocks);
                if moved != want {
                    return Err(format!("inlining {s} moved {moved:?}, not {want:?}"));
                }
                for b in &want {
                    self.m.blocks.get_mut(b).unwrap().parent = Some(d);
                }
                let bl = &mut self.m.regions.get_mut(&d).unwrap().blocks;
                let p = before.and_then(|x| bl.iter().position(|y| *y == x)).unwrap_or(bl.len());
                bl.splice(p..p, want);
                say!("inline blocks of {s} into {d} before {before:?}");
                "inline region blocks"
            }
            21 | 22 => {
                let op = some!(self.any_op());
                let used = {
                    let u = self.m.uses();
                    self.m.ops[&op].results.iter().any(|v| u.get(v).is_some_and(|x| !x.is_empty()))
                };
                if used {
                    if self.r.chance(50) {
                        // must be refused; nothing but the position may change
                        let r = guard(|| erase_op(&mut self.ctx, op));
                        if r.is_ok() {
                            return Err(format!("erasing {op}, whose results are still used, was accepted"));
                        }
                        if self.ctx.op(op).parent_block.is_none() {
                            self.unlink(op);
                        }
                        say!("refused erase of {op}");
                        return Ok("refused erase");
                    }
                    // replace its results first
                    let res = self.m.ops[&op].results.clone();
                    let vals: Vec<ValueRef> = self.m.live_values().into_iter().filter(|v| !res.contains(v)).collect();
                    if vals.is_empty() {
                        return Ok("nothing to do");
                    }
                    for v in res {
                        let n = *self.r.pick(&vals);
                        self.ctx.replace_all_uses(v, n);
                        for d in self.m.ops.values_mut() {
                            for x in d.operands.iter_mut() {
                                if *x == v {
                                    *x = n;
                                }
                            }
                        }
                    }
                }
                if !self.self_contained(op) {
                    return Ok("nothing to do");
                }
                if self.m.ops[&op].parent.is_some() && self.r.chance(15) {
                    if guard(|| self.ctx.remove_op(op)).is_ok() {
                        return Err(format!("removing {op}, still attached to a block, was accepted"));
                    }
                    return Ok("refused removal of an attached operation");
                }
                erase_op(&mut self.ctx, op);
                self.unlink(op);
                self.forget(op);
                say!("erase {op}");
                "erase"
            }
            23 | 24 => {
                let op = some!(self.any_op());
                let mut n = vec![];
                self.m.subtree(op, &mut n);
                if self.m.ops.len() + n.len() > self.max_ops + 20 || !self.ordered(op) {
                    return Ok("nothing to do");
                }
                let mut map = IrMapping::new();
                // some outside references are redirected
                let mut redirect: HashMap<ValueRef, ValueRef> = HashMap::new();
                if self.r.chance(60) {
                    for _ in 0..2 {
                        let (a, b) = (some!(self.any_value()), some!(self.any_value()));
                        map.map_value(a, b);
                        redirect.insert(a, b);
                    }
                }
                // definitions inside the tree override a redirection when the clone reaches them
                let dest = if self.r.chance(50) { self.block_outside(op) } else { None };
                let new = match dest {
                    Some(b) => self.ctx.clone_op_into_block(b, op, &mut map),
                    None => self.ctx.clone_op(op, &mut map),
                };
                say!("clone {op} as {new} into {dest:?}");
                let (mut vm, mut bm, mut pairs) = (HashMap::new(), HashMap::new(), vec![]);
                iso(&self.ctx, op, new, &mut vm, &mut bm, &mut pairs)?;
                for (a, b) in &pairs {
                    for (i, (u, v)) in self.ctx.op_operands(*a).iter().zip(self.ctx.op_operands(*b)).enumerate() {
                        let want = vm.get(u).or_else(|| redirect.get(u)).copied().unwrap_or(*u);
                        if *v != want {
                            return Err(format!("clone {b} of {a}: operand {i} is {v}, should be {want}"));
                        }
                    }
                    if self.ctx.op_operands(*a).len() != self.ctx.op_operands(*b).len() {
                        return Err(format!("clone {b} of {a}: different number of operands"));
                    }
                    for (i, (u, v)) in self.ctx.op(*a).successors.iter().zip(self.ctx.op(*b).successors.iter()).enumerate() {
                        // a branch to a sibling block must go to the cloned sibling
                        let want = bm.get(u).copied().unwrap_or(*u);
                        let home = |b: BlockRef| self.m.blocks.get(&b).and_then(|d| d.parent);
                        let sibling = self.m.ops[a].parent.and_then(home).is_some_and(|r| home(*u) == Some(r));
                        if *v != want && sibling {
                            return Err(format!("clone {b} of {a}: successor {i} is {v}, should be {want}"));
                        }
                    }
                }
                for (u, v) in &vm {
                    if map.lookup_value(*u) != Some(*v) {
                        return Err(format!("the mapping of clone {new} sends {u} to {:?}, not {v}", map.lookup_value(*u)));
                    }
                }
                self.adopt(new);
                if let Some(b) = dest {
                    self.m.blocks.get_mut(&b).unwrap().ops.push(new);
                }
                "clone"
            }
            _ => {
                let rs: Vec<RegionRef> = self.m.regions.iter().filter(|(_, d)| d.parent.is_some()).map(|(r, _)| *r).collect();
                if rs.is_empty() || self.r.chance(60) {
                    return Ok("nothing to do");
                }
                let r = *self.r.pick(&rs);
                let o = self.m.regions[&r].parent.unwrap();
                self.ctx.detach_region(r);
                self.m.regions.get_mut(&r).unwrap().parent = None;
                self.m.ops.get_mut(&o).unwrap().regions.retain(|x| *x != r);
                say!("detach {r} of {o}");
                if self.r.chance(70) {
                    // hand it to a new operation
                    let op = self.create(vec![r], 1, 1);
                    say!("create {op} with {r}");
                }
                "detach region"
            }
        })
    }
}

pub fn check_graph(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("A history is a random sequence of edits; after every edit the whole graph is compared with the model. A state is counted distinct by the hash of the history up to it.".into());
    st.merge(run_cases(cfg, "history", cfg.n(8000, 60_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let p = ctx.paths.intern("h".into());
        let tys: Vec<TypeRef> = ["i32", "i64", "f64"]
            .iter()
            .map(|n| ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::from_dynamic(n)).build()))
            .collect();
        let steps = *r.pick(&[20, 60, 60, 150, 300]);
        let max_ops = *r.pick(&[8usize, 20, 40]);
        let mut h = Hist { ctx, m: Model::default(), r: &mut r, loc: Location::new(p, Span::new(0, 0)), tys, next: 0, log: vec![], max_ops };
        // one root with a region, so that there is something to edit
        let reg = h.new_region();
        let root = h.create(vec![reg], 0, 0);
        h.log.push(format!("root {root}"));
        for i in 0..steps {
            let n = h.log.len();
            let k = match h.step() {
                Ok(k) => k,
                Err(e) => {
                    c.input(h.log.join("\n"));
                    c.violation(e);
                    return;
                }
            };
            if k == "nothing to do" {
                continue;
            }
            c.st.count(k, 1);
            match h.m.check(&h.ctx) {
                Ok(f) => c.st.count("facts compared", f),
                Err(e) => {
                    c.input(h.log.join("\n"));
                    c.violation(format!("after step {i} ({k}): {e}"));
                    return;
                }
            }
            if h.log.len() > n {
                let key = crate::rng::hash_bytes(format!("{}{:?}", c.idx, h.log.len()).as_bytes());
                c.st.distinct.insert(key);
            }
            if i % 16 == 0 {
                c.input(h.log.join("\n"));
                // traversals see every operation of a subtree exactly once, parents first
                if let Some(o) = h.any_op() {
                    let mut want = vec![];
                    h.m.subtree(o, &mut want);
                    let mut got = vec![];
                    let _ = walk_op::<()>(&h.ctx, o, &mut |x| {
                        got.push(x);
                        ControlFlow::Continue(WalkAction::Advance)
                    });
                    if got != want {
                        c.violation(format!("traversal of {o} visits {got:?}, not {want:?}"));
                        return;
                    }
                    // skipping an operation skips exactly its subtree
                    if want.len() > 2 {
                        let skip = want[1 + h.r.below(want.len() - 1)];
                        let mut sub = vec![];
                        h.m.subtree(skip, &mut sub);
                        let inner: BTreeSet<OpRef> = sub.into_iter().skip(1).collect();
                        let w2: Vec<OpRef> = want.iter().copied().filter(|x| !inner.contains(x)).collect();
                        let mut g2 = vec![];
                        let _ = walk_op::<()>(&h.ctx, o, &mut |x| {
                            g2.push(x);
                            ControlFlow::Continue(if x == skip { WalkAction::Skip } else { WalkAction::Advance })
                        });
                        if g2 != w2 {
                            c.violation(format!("traversal of {o} skipping {skip} visits {g2:?}, not {w2:?}"));
                            return;
                        }
                        let stop = want[h.r.below(want.len())];
                        let mut g3 = vec![];
                        let b = walk_op::<u8>(&h.ctx, o, &mut |x| {
                            g3.push(x);
                            if x == stop { ControlFlow::Break(7) } else { ControlFlow::Continue(WalkAction::Advance) }
                        });
                        let p = want.iter().position(|x| *x == stop).unwrap();
                        if g3 != want[..=p] || b != ControlFlow::Break(7) {
                            c.violation(format!("traversal of {o} stopped at {stop} visits {g3:?}"));
                            return;
                        }
                    }
                    for &rg in &h.m.ops[&o].regions {
                        let mut want = vec![];
                        for b in &h.m.regions[&rg].blocks {
                            for &x in &h.m.blocks[b].ops {
                                h.m.subtree(x, &mut want);
                            }
                        }
                        let mut got = vec![];
                        let _ = walk_region::<()>(&h.ctx, rg, &mut |x| {
                            got.push(x);
                            ControlFlow::Continue(WalkAction::Advance)
                        });
                        if got != want {
                            c.violation(format!("traversal of {rg} visits {got:?}, not {want:?}"));
                            return;
                        }
                    }
                    c.st.count("traversals compared", 1);
                }
            }
        }
        c.st.max("operations alive", h.m.ops.len() as u64);
        c.st.max("steps in one history", steps as u64);
        if c.idx < 2 {
            let t = h.log.join("; ");
            c.sample(|| t);
        }
    }));
    // cloning generated function bodies: the clone is structurally identical
    st.merge(run_cases(cfg, "clone", cfg.n(5000, 40_000), |c| {
        let mut r = c.rng.clone();
        let mut ctx = IrContext::new();
        let ic = irgen::IrCfg { depth: r.below(4), max_ops: 40, max_blocks: 4, nested_modules: true, attrs: true, aliases: false, weird_names: false, crowded: false, wide: *r.pick(&[4, 4, 9]) };
        let op = irgen::IrGen::new(&mut ctx, &mut r, ic).module(0);
        c.input(trunk_ir::printer::print_module(&ctx, op));
        let before = irgen::dump(&ctx, op);
        let mut map = IrMapping::new();
        let new = ctx.clone_op(op, &mut map);
        let (a, b) = (irgen::dump(&ctx, op), irgen::dump(&ctx, new));
        if a != before {
            c.violation(format!("cloning changed the original: {}", irgen::diff(&before, &a)));
            return;
        }
        if a != b {
            c.violation(format!("clone differs from the original: {}", irgen::diff(&a, &b)));
            return;
        }
        let e = crate::integrity::check_links(&ctx, new);
        if !e.is_empty() {
            c.violation(format!("clone is inconsistent: {}", e[0]));
            return;
        }
        let e = crate::integrity::check_links(&ctx, op);
        if !e.is_empty() {
            c.violation(format!("original is inconsistent after cloning: {}", e[0]));
            return;
        }
        // erasing the clone gives the original back exactly
        erase_op(&mut ctx, new);
        let a2 = irgen::dump(&ctx, op);
        let e = crate::integrity::check_links(&ctx, op);
        if a2 != before || !e.is_empty() {
            c.violation(format!("erasing the clone changed the original: {} {e:?}", irgen::diff(&before, &a2)));
        }
        c.st.distinct.insert(crate::rng::hash_bytes(a.as_bytes()));
    }));
    st
}
