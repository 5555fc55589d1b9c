//! Independent structural checker: ownership links, use chains, dominance.
use std::collections::{HashMap, HashSet};
use trunk_ir::{BlockRef, IrContext, OpRef, RegionRef, ValueDef, ValueRef};

pub struct Tree {
    pub ops: Vec<OpRef>,
    pub blocks: Vec<BlockRef>,
    pub regions: Vec<RegionRef>,
}

pub fn collect(ctx: &IrContext, root: OpRef, t: &mut Tree, errs: &mut Vec<String>) {
    let mut seen_op = HashSet::new();
    let mut seen_b = HashSet::new();
    let mut seen_r = HashSet::new();
    let mut stack = vec![root];
    while let Some(op) = stack.pop() {
        if !seen_op.insert(op) {
            errs.push(format!("operation {op} is in the tree twice"));
            continue;
        }
        t.ops.push(op);
        for &r in &ctx.op(op).regions {
            if !seen_r.insert(r) {
                errs.push(format!("region {r} is in the tree twice"));
                continue;
            }
            t.regions.push(r);
            if ctx.region(r).parent_op != Some(op) {
                errs.push(format!("region {r} of {op} has parent {:?}", ctx.region(r).parent_op));
            }
            for &b in &ctx.region(r).blocks {
                if !seen_b.insert(b) {
                    errs.push(format!("block {b} is in the tree twice"));
                    continue;
                }
                t.blocks.push(b);
                if ctx.block(b).parent_region != Some(r) {
                    errs.push(format!("block {b} of {r} has parent {:?}", ctx.block(b).parent_region));
                }
                for &o in &ctx.block(b).ops {
                    if ctx.op(o).parent_block != Some(b) {
                        errs.push(format!("op {o} of {b} has parent {:?}", ctx.op(o).parent_block));
                    }
                    stack.push(o);
                }
            }
        }
    }
}

/// Ownership links, value definitions and use chains of everything under `root`.
pub fn check_links(ctx: &IrContext, root: OpRef) -> Vec<String> {
    let mut errs = vec![];
    let mut t = Tree { ops: vec![], blocks: vec![], regions: vec![] };
    collect(ctx, root, &mut t, &mut errs);
    let live: HashSet<OpRef> = t.ops.iter().copied().collect();
    let mut defined: Vec<ValueRef> = vec![];
    let mut want: HashMap<ValueRef, HashSet<(OpRef, u32)>> = HashMap::new();
    for &op in &t.ops {
        let rs = ctx.op_results(op);
        if rs.len() != ctx.op_result_types(op).len() {
            errs.push(format!("op {op}: {} results, {} result types", rs.len(), ctx.op_result_types(op).len()));
        }
        for (i, &v) in rs.iter().enumerate() {
            defined.push(v);
            if ctx.value_def(v) != ValueDef::OpResult(op, i as u32) {
                errs.push(format!("value {v} is result {i} of {op} but its definition says {:?}", ctx.value_def(v)));
            }
        }
        for (i, &v) in ctx.op_operands(op).iter().enumerate() {
            want.entry(v).or_default().insert((op, i as u32));
            let k = ctx.uses(v).iter().filter(|u| u.user == op && u.operand_index == i as u32).count();
            if k != 1 {
                errs.push(format!("operand {i} of {op} ({v}) is recorded {k} times in the use list"));
            }
        }
        if let Some(b) = ctx.op(op).parent_block {
            for s in &ctx.op(op).successors {
                if ctx.block(*s).parent_region != ctx.block(b).parent_region {
                    errs.push(format!("op {op} branches to {s} in another region"));
                }
            }
        }
    }
    for &b in &t.blocks {
        let a = ctx.block_args(b);
        if a.len() != ctx.block(b).args.len() {
            errs.push(format!("block {b}: {} argument values, {} declared", a.len(), ctx.block(b).args.len()));
        }
        for (i, &v) in a.iter().enumerate() {
            defined.push(v);
            if ctx.value_def(v) != ValueDef::BlockArg(b, i as u32) {
                errs.push(format!("value {v} is argument {i} of {b} but its definition says {:?}", ctx.value_def(v)));
            }
        }
    }
    for v in defined {
        for u in ctx.uses(v) {
            if !live.contains(&u.user) {
                errs.push(format!("value {v} has a use by {} which is not in the module", u.user));
            } else if ctx.op_operands(u.user).get(u.operand_index as usize) != Some(&v) {
                errs.push(format!("value {v} has a stale use: operand {} of {}", u.operand_index, u.user));
            }
        }
    }
    errs
}

/// Every operand is available at its use: defined earlier in the block, in a dominating
/// block, or in an enclosing region (not across an isolated function boundary is left out).
pub fn check_dominance(ctx: &IrContext, root: OpRef) -> Vec<String> {
    let mut errs = vec![];
    let mut avail: HashSet<ValueRef> = HashSet::new();
    for &r in &ctx.op(root).regions {
        dom_region(ctx, r, &mut avail, &mut errs);
    }
    errs
}

fn dom_region(ctx: &IrContext, r: RegionRef, avail: &mut HashSet<ValueRef>, errs: &mut Vec<String>) {
    let blocks: Vec<BlockRef> = ctx.region(r).blocks.to_vec();
    if blocks.is_empty() {
        return;
    }
    let index: HashMap<BlockRef, usize> = blocks.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    let n = blocks.len();
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        for &op in &ctx.block(*b).ops {
            for s in &ctx.op(op).successors {
                if let Some(&j) = index.get(s) {
                    preds[j].push(i);
                }
            }
        }
    }
    // dominator sets by iteration; None = "everything" (unreachable so far)
    let mut dom: Vec<Option<HashSet<usize>>> = vec![None; n];
    dom[0] = Some([0].into_iter().collect());
    loop {
        let mut changed = false;
        for i in 1..n {
            let mut acc: Option<HashSet<usize>> = None;
            for &p in &preds[i] {
                if let Some(d) = &dom[p] {
                    acc = Some(match acc {
                        None => d.clone(),
                        Some(a) => a.intersection(d).copied().collect(),
                    });
                }
            }
            if let Some(mut a) = acc {
                a.insert(i);
                if dom[i].as_ref() != Some(&a) {
                    dom[i] = Some(a);
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut block_vals: Vec<Vec<ValueRef>> = vec![];
    for b in &blocks {
        let mut v: Vec<ValueRef> = ctx.block_args(*b).to_vec();
        for &op in &ctx.block(*b).ops {
            v.extend_from_slice(ctx.op_results(op));
        }
        block_vals.push(v);
    }
    for (i, b) in blocks.iter().enumerate() {
        let mut here: Vec<ValueRef> = vec![];
        match &dom[i] {
            Some(d) => {
                for &j in d {
                    if j != i {
                        here.extend(block_vals[j].iter().copied());
                    }
                }
            }
            None => {
                // unreachable: anything goes as long as it is a value of this region
                for (j, v) in block_vals.iter().enumerate() {
                    if j != i {
                        here.extend(v.iter().copied());
                    }
                }
            }
        }
        here.extend_from_slice(ctx.block_args(*b));
        let mut added: Vec<ValueRef> = here.iter().copied().filter(|v| avail.insert(*v)).collect();
        for &op in &ctx.block(*b).ops {
            for (k, v) in ctx.op_operands(op).iter().enumerate() {
                if !avail.contains(v) {
                    let d = ctx.op(op);
                    errs.push(format!("operand {k} ({v}) of {}.{} {op} is not available there", d.dialect, d.name));
                }
            }
            for &r in &ctx.op(op).regions {
                dom_region(ctx, r, avail, errs);
            }
            for &v in ctx.op_results(op) {
                if avail.insert(v) {
                    added.push(v);
                }
            }
        }
        for v in added {
            avail.remove(&v);
        }
    }
}

pub fn check_all(ctx: &IrContext, root: OpRef) -> Vec<String> {
    let mut e = check_links(ctx, root);
    if e.is_empty() {
        e.extend(check_dominance(ctx, root));
    }
    e
}

/// boolean constants are spelled 0/1 or true/false
pub fn check_bools(ctx: &IrContext, root: OpRef) -> Vec<String> {
    let mut t = Tree { ops: vec![], blocks: vec![], regions: vec![] };
    collect(ctx, root, &mut t, &mut vec![]);
    let mut e = vec![];
    for o in t.ops {
        let d = ctx.op(o);
        if d.dialect == *"arith" && d.name == *"const" {
            let ty = ctx.types.get(ctx.op_result_types(o)[0]);
            if ty.dialect == *"core" && ty.name == *"i1" && matches!(d.attributes.get_i128("value"), Some(v) if v != 0 && v != 1) {
                e.push(format!("{o} is a boolean constant that is neither 0 nor 1"));
            }
        }
    }
    e
}
