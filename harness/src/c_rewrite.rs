//! Pattern rewriting and dialect conversion against a term-rewriting model (C09).
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::integrity;
use crate::rng::{Rng, mix};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use trunk_ir::context::{BlockArgData, BlockData, OperationDataBuilder, RegionData};
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::dialect::func;
use trunk_ir::ops::DialectOp;
use trunk_ir::rewrite::type_converter::MaterializeResult;
use trunk_ir::rewrite::{ConversionTarget, FuncSignatureConversionPattern, LegalityCheck, LegalityDecision, Module, PatternApplicator, PatternRewriter, RewritePattern, TypeConverter, WasmFuncSignatureConversionPattern};
use trunk_ir::types::{Attribute, AttributeMap, Location, TypeDataBuilder};
use trunk_ir::{BlockRef, IrContext, OpRef, Span, Symbol, TypeRef, ValueDef, ValueRef};

const K: usize = 8;
const D: [&str; 2] = ["t0", "t1"];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum V {
    R(i64, usize),
    A(BlockRef, usize),
}
#[derive(Clone, Debug, PartialEq)]
struct Node {
    id: i64,
    name: (String, String),
    operands: Vec<V>,
    rtys: Vec<TypeRef>,
    regions: Vec<Vec<(BlockRef, Vec<Node>)>>,
}

fn opid(ctx: &IrContext, o: OpRef) -> i64 {
    ctx.op(o).attributes.get_i128("id").unwrap_or(-1) as i64
}
fn val(ctx: &IrContext, v: ValueRef) -> V {
    match ctx.value_def(v) {
        ValueDef::OpResult(o, i) => V::R(opid(ctx, o), i as usize),
        ValueDef::BlockArg(b, i) => V::A(b, i as usize),
    }
}
fn extract(ctx: &IrContext, o: OpRef) -> Node {
    let d = ctx.op(o);
    Node {
        id: opid(ctx, o),
        name: (d.dialect.to_string(), d.name.to_string()),
        operands: ctx.op_operands(o).iter().map(|v| val(ctx, *v)).collect(),
        rtys: ctx.op_result_types(o).to_vec(),
        regions: d
            .regions
            .iter()
            .map(|r| ctx.region(*r).blocks.iter().map(|b| (*b, ctx.block(*b).ops.iter().map(|x| extract(ctx, *x)).collect())).collect())
            .collect(),
    }
}
fn show(n: &Node, ind: usize, out: &mut String) {
    out.push_str(&format!("{:ind$}#{} {}.{} {:?} res={}\n", "", n.id, n.name.0, n.name.1, n.operands, n.rtys.len()));
    for r in &n.regions {
        for (b, ops) in r {
            out.push_str(&format!("{:ind$} {b}\n", ""));
            for o in ops {
                show(o, ind + 2, out);
            }
        }
    }
}
fn text(n: &Node) -> String {
    let mut s = String::new();
    show(n, 0, &mut s);
    s
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// decline
    No,
    /// record an erasure, then decline after all
    Regret(usize),
    /// claim to match without doing anything
    Idle,
    Rename(u8, usize),
    /// rename and rotate the operands
    Rotate(u8, usize),
    /// a new operation before this one, whose result becomes the first operand
    Prefix(u8, usize, usize),
    /// replace every result by an operand
    Erase(usize),
    /// rename and add an operation to the module
    Outline(u8, usize, usize),
}
#[derive(Clone, Debug)]
struct Rule {
    d: u8,
    kind: usize,
    min_operands: usize,
    /// only operations whose id has this remainder mod 3
    modulo: Option<i64>,
    act: Act,
}

fn derived(id: i64, rule: usize, what: u64) -> i64 {
    (mix(mix(id as u64, rule as u64), what) >> 2) as i64
}

fn kind_of(name: &(String, String)) -> Option<(u8, usize)> {
    let d = D.iter().position(|x| *x == name.0)? as u8;
    Some((d, name.1.strip_prefix('k')?.parse().ok()?))
}

impl Rule {
    fn matches(&self, d: u8, kind: usize, id: i64, operands: usize, results: usize, regions: usize) -> bool {
        let base = d == self.d && kind == self.kind && operands >= self.min_operands && self.modulo.is_none_or(|m| id.rem_euclid(3) == m);
        base && match self.act {
            Act::No => false,
            Act::Erase(_) | Act::Regret(_) => operands > 0 && regions == 0 && results > 0,
            _ => true,
        }
    }
}

struct RulePattern {
    rule: Rule,
    idx: usize,
}
impl RewritePattern for RulePattern {
    fn match_and_rewrite(&self, ctx: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
        let d = ctx.op(op);
        let Some((dl, k)) = kind_of(&(d.dialect.to_string(), d.name.to_string())) else { return false };
        let id = opid(ctx, op);
        let mut operands: Vec<ValueRef> = ctx.op_operands(op).to_vec();
        let nres = ctx.op_results(op).len();
        let regions = d.regions.to_vec();
        let loc = d.location;
        if !self.rule.matches(dl, k, id, operands.len(), nres, regions.len()) {
            return false;
        }
        let named = |d: u8, k: usize| OperationDataBuilder::new(loc, Symbol::from_dynamic(D[d as usize]), Symbol::from_dynamic(&format!("k{k}")));
        let rtys = rw.result_types(ctx, op);
        let (d2, k2) = match self.rule.act {
            Act::No => return false,
            Act::Idle => return true,
            Act::Erase(n) | Act::Regret(n) => {
                let vs = (0..nres).map(|i| operands[(n + i) % operands.len()]).collect();
                rw.erase_op(vs);
                return self.rule.act == Act::Erase(n);
            }
            Act::Rename(d, k) => (d, k),
            Act::Rotate(d, k) => {
                if !operands.is_empty() {
                    operands.rotate_left(1);
                }
                (d, k)
            }
            Act::Prefix(d, k, pk) => {
                let t = rtys.first().copied().unwrap_or_else(|| ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i32")).build()));
                let b = named(d, pk).operands(operands.iter().copied().take(2)).result(t).attr(Symbol::new("id"), Attribute::Int(derived(id, self.idx, 1) as i128)).build(ctx);
                let p = ctx.create_op(b);
                rw.insert_op(p);
                let v = ctx.op_result(p, 0);
                if operands.is_empty() {
                    operands.push(v);
                } else {
                    operands[0] = v;
                }
                (d, k)
            }
            Act::Outline(d, k, mk) => {
                let b = named(d, mk).attr(Symbol::new("id"), Attribute::Int(derived(id, self.idx, 2) as i128)).build(ctx);
                let m = ctx.create_op(b);
                rw.add_module_op(m);
                (d, k)
            }
        };
        for &r in &regions {
            ctx.detach_region(r);
        }
        let mut b = named(d2, k2).operands(operands).results(rtys).attr(Symbol::new("id"), Attribute::Int(id as i128));
        for r in regions {
            b = b.region(r);
        }
        let b = b.build(ctx);
        let n = ctx.create_op(b);
        rw.replace_op(n);
        true
    }
}

/// Legality rules as data: `None` = no rule at this tier; dynamic rules give a decision per
/// remainder of the id mod 3 (0 legal, 1 illegal, 2 defer).
#[derive(Clone, Debug, Default)]
struct Legality {
    op_static: BTreeMap<(String, String), bool>,
    op_dynamic: BTreeMap<(String, String), [u8; 3]>,
    dialect_static: BTreeMap<String, bool>,
    dialect_dynamic: BTreeMap<String, [u8; 3]>,
    unknown: Option<[u8; 3]>,
    recursive_static: BTreeSet<(String, String)>,
    recursive_dynamic: BTreeSet<(String, String)>,
}

fn decide(t: &[u8; 3], id: i64) -> u8 {
    t[id.rem_euclid(3) as usize]
}

impl Legality {
    fn random(r: &mut Rng) -> Self {
        let mut l = Legality::default();
        if r.chance(25) {
            return l;
        }
        let tri = |r: &mut Rng| [r.below(3) as u8, r.below(3) as u8, r.below(3) as u8];
        for d in D {
            for k in 0..K {
                let key = (d.to_string(), format!("k{k}"));
                if r.chance(12) {
                    l.op_static.insert(key.clone(), r.chance(60));
                }
                if r.chance(10) {
                    l.op_dynamic.insert(key.clone(), tri(r));
                }
                // recursive legality only for a kind no rule produces, so that the order of
                // visits does not matter
                if k == 0 {
                    if r.chance(50) {
                        l.op_static.insert(key.clone(), true);
                    }
                    if l.op_static.get(&key) == Some(&true) && r.chance(50) {
                        l.recursive_static.insert(key.clone());
                    }
                    if l.op_dynamic.contains_key(&key) && r.chance(60) {
                        l.recursive_dynamic.insert(key.clone());
                    }
                }
            }
            if r.chance(25) {
                l.dialect_static.insert(d.to_string(), r.chance(40));
            }
            if r.chance(15) {
                l.dialect_dynamic.insert(d.to_string(), tri(r));
            }
        }
        if r.chance(30) {
            l.dialect_static.insert("func".into(), r.chance(80));
        }
        if r.chance(20) {
            l.unknown = Some(tri(r));
        }
        l
    }
    fn none(&self) -> bool {
        self.op_static.is_empty() && self.op_dynamic.is_empty() && self.dialect_static.is_empty() && self.dialect_dynamic.is_empty() && self.unknown.is_none()
    }
    fn of(&self, name: &(String, String), id: i64) -> LegalityCheck {
        let c = |x: bool| if x { LegalityCheck::Legal } else { LegalityCheck::Illegal };
        if let Some(t) = self.op_dynamic.get(name) {
            let x = decide(t, id);
            if x < 2 {
                return c(x == 0);
            }
        }
        if let Some(x) = self.op_static.get(name) {
            return c(*x);
        }
        if let Some(t) = self.dialect_dynamic.get(&name.0) {
            let x = decide(t, id);
            if x < 2 {
                return c(x == 0);
            }
        }
        if let Some(x) = self.dialect_static.get(&name.0) {
            return c(*x);
        }
        if let Some(t) = &self.unknown {
            let x = decide(t, id);
            if x < 2 {
                return c(x == 0);
            }
        }
        LegalityCheck::Unknown
    }
    fn recursive(&self, name: &(String, String), id: i64) -> bool {
        (self.recursive_dynamic.contains(name) && self.op_dynamic.get(name).is_some_and(|t| decide(t, id) == 0))
            || (self.recursive_static.contains(name) && self.of(name, id) == LegalityCheck::Legal)
    }
    fn build(&self, r: &mut Rng) -> ConversionTarget {
        let mut t = ConversionTarget::new();
        let dy = |x: [u8; 3]| move |ctx: &IrContext, o: OpRef| [LegalityDecision::Legal, LegalityDecision::Illegal, LegalityDecision::Defer][decide(&x, opid(ctx, o)) as usize];
        let mut steps: Vec<Box<dyn FnOnce(&mut ConversionTarget)>> = vec![];
        for ((d, n), x) in self.op_static.clone() {
            steps.push(Box::new(move |t| if x { t.add_legal_op(&d, &n) } else { t.add_illegal_op(&d, &n) }));
        }
        for ((d, n), x) in self.op_dynamic.clone() {
            steps.push(Box::new(move |t| t.add_dynamic_op(&d, &n, dy(x))));
        }
        for (d, x) in self.dialect_static.clone() {
            steps.push(Box::new(move |t| if x { t.add_legal_dialect(&d) } else { t.add_illegal_dialect(&d) }));
        }
        for (d, x) in self.dialect_dynamic.clone() {
            steps.push(Box::new(move |t| t.add_dynamic_dialect(&d, dy(x))));
        }
        if let Some(x) = self.unknown {
            steps.push(Box::new(move |t| t.add_dynamic_unknown(dy(x))));
        }
        r.shuffle(&mut steps);
        for s in steps {
            s(&mut t);
        }
        for (d, n) in &self.recursive_static {
            t.add_recursive_legal_op(d, n);
        }
        for (d, n) in &self.recursive_dynamic {
            t.add_recursive_dynamic_op(d, n);
        }
        t
    }
}

struct Norm<'a> {
    rules: &'a [Rule],
    legal: &'a Legality,
    subst: HashMap<V, V>,
    modules: Vec<Node>,
    changes: usize,
    i32: TypeRef,
}
impl Norm<'_> {
    fn list(&mut self, ops: Vec<Node>) -> Vec<Node> {
        let mut out = vec![];
        for o in ops {
            self.op(o, &mut out);
        }
        out
    }
    fn op(&mut self, mut n: Node, out: &mut Vec<Node>) {
        if self.legal.recursive(&n.name, n.id) {
            out.push(n);
            return;
        }
        let rs = std::mem::take(&mut n.regions);
        n.regions = rs.into_iter().map(|r| r.into_iter().map(|(b, ops)| (b, self.list(ops))).collect()).collect();
        'again: loop {
            if self.legal.of(&n.name, n.id) == LegalityCheck::Legal {
                break;
            }
            let Some((d, k)) = kind_of(&n.name) else { break };
            for (idx, rule) in self.rules.iter().enumerate() {
                if !rule.matches(d, k, n.id, n.operands.len(), n.rtys.len(), n.regions.len()) || matches!(rule.act, Act::Idle | Act::Regret(_)) {
                    continue;
                }
                self.changes += 1;
                let name = |d: u8, k: usize| (D[d as usize].to_string(), format!("k{k}"));
                match rule.act {
                    Act::Erase(m) => {
                        for i in 0..n.rtys.len() {
                            let v = n.operands[(m + i) % n.operands.len()].clone();
                            self.subst.insert(V::R(n.id, i), v);
                        }
                        return;
                    }
                    Act::Rename(d, k) => n.name = name(d, k),
                    Act::Rotate(d, k) => {
                        if !n.operands.is_empty() {
                            n.operands.rotate_left(1);
                        }
                        n.name = name(d, k);
                    }
                    Act::Prefix(d, k, pk) => {
                        let id = derived(n.id, idx, 1);
                        let t = n.rtys.first().copied().unwrap_or(self.i32);
                        let p = Node { id, name: name(d, pk), operands: n.operands.iter().take(2).cloned().collect(), rtys: vec![t], regions: vec![] };
                        self.op(p, out);
                        let v = V::R(id, 0);
                        if n.operands.is_empty() {
                            n.operands.push(v);
                        } else {
                            n.operands[0] = v;
                        }
                        n.name = name(d, k);
                    }
                    Act::Outline(d, k, mk) => {
                        self.modules.push(Node { id: derived(n.id, idx, 2), name: name(d, mk), operands: vec![], rtys: vec![], regions: vec![] });
                        n.name = name(d, k);
                    }
                    _ => unreachable!(),
                }
                continue 'again;
            }
            break;
        }
        out.push(n);
    }
    fn fix(&self, n: &mut Node) {
        for v in n.operands.iter_mut() {
            while let Some(w) = self.subst.get(v) {
                *v = w.clone();
            }
        }
        for r in n.regions.iter_mut() {
            for (_, ops) in r.iter_mut() {
                for o in ops.iter_mut() {
                    self.fix(o);
                }
            }
        }
    }
}

struct Build<'a> {
    ctx: &'a mut IrContext,
    r: &'a mut Rng,
    loc: Location,
    tys: Vec<TypeRef>,
    next: i128,
    budget: usize,
}
impl Build<'_> {
    fn block(&mut self, tys: &[TypeRef]) -> BlockRef {
        let args = tys.iter().map(|&ty| BlockArgData { ty, attrs: AttributeMap::new() }).collect();
        self.ctx.create_block(BlockData { location: self.loc, args, ops: Default::default(), parent_region: None })
    }
    fn region(&mut self, first: &[TypeRef], scope: &[ValueRef], depth: usize) -> trunk_ir::RegionRef {
        let nb = 1 + if self.r.chance(25) { self.r.below(3) } else { 0 };
        let mut bs = vec![];
        let mut sc = scope.to_vec();
        for i in 0..nb {
            let k = self.r.below(3);
            let tys: Vec<TypeRef> = if i == 0 { first.to_vec() } else { (0..k).map(|_| *self.r.pick(&self.tys)).collect() };
            let b = self.block(&tys);
            let mut vals = sc.clone();
            vals.extend(self.ctx.block_args(b));
            self.fill(b, &mut vals, depth);
            if i == 0 {
                sc = vals;
            }
            bs.push(b);
        }
        self.ctx.create_region(RegionData { location: self.loc, blocks: bs.into_iter().collect(), parent_op: None })
    }
    fn fill(&mut self, b: BlockRef, vals: &mut Vec<ValueRef>, depth: usize) {
        for _ in 0..1 + self.r.below(6) {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            self.next += 1;
            let (d, k) = (*self.r.pick(&D), self.r.below(K));
            let mut o = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(d), Symbol::from_dynamic(&format!("k{k}"))).attr(Symbol::new("id"), Attribute::Int(self.next));
            for _ in 0..self.r.below(4) {
                if !vals.is_empty() {
                    o = o.operand(*self.r.pick(vals));
                }
            }
            for _ in 0..self.r.below(3) {
                o = o.result(*self.r.pick(&self.tys));
            }
            if depth < 3 && self.r.chance(25) {
                for _ in 0..1 + self.r.below(2) {
                    let k = self.r.below(2);
                    let tys: Vec<TypeRef> = (0..k).map(|_| *self.r.pick(&self.tys)).collect();
                    let reg = self.region(&tys, &vals.clone(), depth + 1);
                    o = o.region(reg);
                }
            }
            let dd = o.build(self.ctx);
            let op = self.ctx.create_op(dd);
            self.ctx.push_op(b, op);
            vals.extend_from_slice(self.ctx.op_results(op));
        }
    }
    fn module(&mut self, dialect: &str) -> OpRef {
        let b = self.block(&[]);
        for i in 0..1 + self.r.below(3) {
            if self.r.chance(25) {
                self.fill(b, &mut vec![], 2);
            }
            let k = self.r.below(3);
            let params: Vec<TypeRef> = (0..k).map(|_| *self.r.pick(&self.tys)).collect();
            let ret = *self.r.pick(&self.tys);
            let mut fb = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(ret);
            for &p in &params {
                fb = fb.param(p);
            }
            let ft = self.ctx.types.intern(fb.build());
            self.next += 1;
            let mut o = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(dialect), Symbol::new("func"))
                .attr(Symbol::new("sym_name"), Attribute::Symbol(Symbol::from_dynamic(&format!("f{i}"))))
                .attr(Symbol::new("type"), Attribute::Type(ft))
                .attr(Symbol::new("id"), Attribute::Int(self.next));
            if self.r.chance(30) {
                o = o.attr(Symbol::new("abi"), Attribute::String("C".into()));
            }
            if self.r.chance(92) {
                let reg = self.region(&params, &[], 0);
                o = o.region(reg);
            }
            let d = o.build(self.ctx);
            let f = self.ctx.create_op(d);
            self.ctx.push_op(b, f);
        }
        let reg = self.ctx.create_region(RegionData { location: self.loc, blocks: [b].into_iter().collect(), parent_op: None });
        let d = OperationDataBuilder::new(self.loc, Symbol::new("core"), Symbol::new("module")).attr(Symbol::new("sym_name"), Attribute::Symbol(Symbol::new("m"))).region(reg).build(self.ctx);
        self.ctx.create_op(d)
    }
}

fn fresh<'a>(ctx: &'a mut IrContext, r: &'a mut Rng) -> Build<'a> {
    let p = ctx.paths.intern("r".into());
    let tys = ["i32", "i64", "f64", "ptr"].iter().map(|n| ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::from_dynamic(n)).build())).collect();
    let budget = *r.pick(&[4usize, 12, 30, 60]);
    Build { ctx, r, loc: Location::new(p, Span::new(0, 0)), tys, next: 0, budget }
}

fn rules(r: &mut Rng) -> Vec<Rule> {
    let n = *r.pick(&[0usize, 3, 8, 16, 24]);
    (0..n)
        .map(|_| {
            let kind = r.below(K - 1);
            let up = |r: &mut Rng| kind + 1 + r.below(K - 1 - kind);
            let d = |r: &mut Rng| r.below(2) as u8;
            let act = match r.below(14) {
                0 => if r.chance(40) { Act::No } else { Act::Regret(r.below(3)) },
                1 => Act::Idle,
                2..=4 => Act::Rename(d(r), up(r)),
                5 | 6 => Act::Rotate(d(r), up(r)),
                7..=9 => Act::Prefix(d(r), up(r), up(r)),
                10..=12 => Act::Erase(r.below(3)),
                _ => Act::Outline(d(r), up(r), up(r)),
            };
            Rule { d: r.below(2) as u8, kind, min_operands: *r.pick(&[0, 0, 0, 1, 2]), modulo: if r.chance(25) { Some(r.below(3) as i64) } else { None }, act }
        })
        .collect()
}

fn sort_top(n: &mut Node, module_ops: &BTreeSet<i64>) -> Vec<Node> {
    // operations added to the module appear after everything else, in no particular order
    let ops = &mut n.regions[0][0].1;
    let mut added: Vec<Node> = vec![];
    ops.retain(|o| {
        if module_ops.contains(&o.id) {
            added.push(o.clone());
            false
        } else {
            true
        }
    });
    added.sort_by_key(|a| a.id);
    added
}

fn rewrite_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ctx = IrContext::new();
    let mut r2 = r.clone();
    let m = fresh(&mut ctx, &mut r2).module("func");
    let rules = rules(&mut r);
    let legal = Legality::random(&mut r);
    let i32 = ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i32")).build());
    let before = extract(&ctx, m);
    let mut inp = format!("rules {rules:#?}\nlegality {legal:?}\n{}", text(&before));
    // scope: the module or one function with a body
    let funcs: Vec<usize> = before.regions[0][0].1.iter().enumerate().filter(|(_, o)| o.name.0 == "func" && !o.regions.is_empty()).map(|(i, _)| i).collect();
    let scoped = if !funcs.is_empty() && r.chance(30) { Some(*r.pick(&funcs)) } else { None };
    let max = *r.pick(&[1usize, 2, 4, 10, 60]);
    inp.push_str(&format!("scope {scoped:?} max_iterations {max}\n"));
    c.input(inp);
    // expected normal form
    let mut nm = Norm { rules: &rules, legal: &legal, subst: HashMap::new(), modules: vec![], changes: 0, i32 };
    let mut want = before.clone();
    let mut added: BTreeSet<i64> = BTreeSet::new();
    let mut want_added = vec![];
    match scoped {
        Some(i) => {
            let f = &mut want.regions[0][0].1[i];
            let body = std::mem::take(&mut f.regions[0]);
            f.regions[0] = body.into_iter().map(|(b, ops)| (b, nm.list(ops))).collect();
            nm.modules.clear();
        }
        None => {
            let ops = std::mem::take(&mut want.regions[0][0].1);
            want.regions[0][0].1 = nm.list(ops);
            while let Some(x) = nm.modules.pop() {
                added.insert(x.id);
                nm.op(x, &mut want_added);
            }
            // an outlined operation may itself grow operations before it
            added.extend(want_added.iter().map(|n| n.id));
        }
    }
    nm.fix(&mut want);
    for x in want_added.iter_mut() {
        nm.fix(x);
    }
    want_added.sort_by_key(|n| n.id);
    let mut app = PatternApplicator::new(TypeConverter::new()).with_max_iterations(max).with_target(legal.build(&mut r));
    for (idx, rule) in rules.iter().enumerate() {
        app = app.add_pattern(RulePattern { rule: rule.clone(), idx });
    }
    let module = Module::new(&ctx, m).unwrap();
    let fop = scoped.map(|i| module.ops(&ctx)[i]);
    let mut total = 0;
    let mut rounds = 0;
    loop {
        rounds += 1;
        let was = text(&extract(&ctx, m));
        let res = match fop {
            Some(f) => {
                let s = func::Func::from_op(&ctx, f).unwrap();
                app.apply_partial(&mut ctx, s)
            }
            None => app.apply_partial(&mut ctx, module),
        };
        let is = text(&extract(&ctx, m));
        let e = integrity::check_links(&ctx, m);
        if !e.is_empty() {
            c.violation(format!("after rewriting: {}", e[0]));
            return;
        }
        if (was != is) != (res.total_changes > 0) && !rules.iter().any(|r| matches!(r.act, Act::Outline(..))) {
            c.violation(format!("{} changes reported, module changed: {}", res.total_changes, was != is));
            return;
        }
        if res.iterations > max || (!res.reached_fixpoint && res.iterations != max) || (res.reached_fixpoint && res.total_changes + 1 < res.iterations) {
            c.violation(format!("{} of {max} iterations, {} changes, fixpoint {}", res.iterations, res.total_changes, res.reached_fixpoint));
            return;
        }
        total += res.total_changes;
        if res.reached_fixpoint {
            break;
        }
        c.st.count("early stops", 1);
        if rounds > 200 {
            c.violation("no fixpoint after 200 rounds of a terminating rule set");
            return;
        }
    }
    let mut got = extract(&ctx, m);
    let got_added = sort_top(&mut got, &added);
    if got != want {
        c.violation(format!("result differs from the normal form: {}", crate::irgen::diff(&text(&want), &text(&got))));
        return;
    }
    if got_added != want_added {
        c.violation(format!("operations added to the module: {:?}, should be {:?}", got_added.iter().map(|n| n.id).collect::<Vec<_>>(), want_added.iter().map(|n| n.id).collect::<Vec<_>>()));
        return;
    }
    if total != nm.changes {
        c.violation(format!("{total} changes reported, {} rewrites were due", nm.changes));
        return;
    }
    // verification
    for full in [false, true] {
        let mut due: BTreeSet<i64> = BTreeSet::new();
        fn collect(l: &Legality, ops: &[Node], full: bool, due: &mut BTreeSet<i64>) {
            for o in ops {
                let x = l.of(&o.name, o.id);
                if x == LegalityCheck::Illegal || (full && x != LegalityCheck::Legal) {
                    due.insert(o.id);
                }
                if !l.recursive(&o.name, o.id) {
                    for r in &o.regions {
                        for (_, ops) in r {
                            collect(l, ops, full, due);
                        }
                    }
                }
            }
        }
        match scoped {
            Some(i) => {
                for (_, ops) in &got.regions[0][0].1[i].regions[0] {
                    collect(&legal, ops, full, &mut due);
                }
            }
            None => {
                collect(&legal, &got.regions[0][0].1, full, &mut due);
                collect(&legal, &got_added, full, &mut due);
            }
        }
        macro_rules! run {
            ($s:expr) => {
                if full { app.apply_full_conversion(&mut ctx, $s, "here") } else { app.apply_partial_conversion(&mut ctx, $s, "here") }
            };
        }
        let v = match fop {
            Some(f) => {
                let s = func::Func::from_op(&ctx, f).unwrap();
                run!(s)
            }
            None => run!(module),
        };
        match v {
            Ok(x) => {
                if !due.is_empty() {
                    c.violation(format!("{} conversion succeeds with illegal operations {due:?} left", if full { "full" } else { "partial" }));
                    return;
                }
                if x.total_changes != 0 || !x.reached_fixpoint {
                    c.violation("a second application changes the normal form");
                    return;
                }
                c.st.count("conversions that succeed", 1);
            }
            Err(e) => {
                let have: BTreeSet<i64> = e.operations().iter().map(|o| opid(&ctx, o.op)).collect();
                if have != due || e.operations().len() != due.len() || e.boundary() != "here" {
                    c.violation(format!("illegal operations reported {have:?}, should be {due:?}"));
                    return;
                }
                for o in e.operations() {
                    let n = (ctx.op(o.op).dialect.to_string(), ctx.op(o.op).name.to_string());
                    if o.dialect != ctx.op(o.op).dialect || o.name != ctx.op(o.op).name || o.legality != legal.of(&n, opid(&ctx, o.op)) {
                        c.violation(format!("illegal operation described as {o}"));
                        return;
                    }
                }
                c.st.count("conversions that fail", 1);
                c.st.count("illegal operations reported", due.len() as u64);
            }
        }
        let mut again = extract(&ctx, m);
        sort_top(&mut again, &added);
        if again != want {
            c.violation("a second application changes the normal form");
            return;
        }
    }
    c.st.count("rewrites", total as u64);
    c.st.count("module operations added", want_added.len() as u64);
    c.st.count(if scoped.is_some() { "function scope" } else { "module scope" }, 1);
    if !legal.none() {
        c.st.count("with a conversion target", 1);
    }
    c.st.max("rewrites in one module", total as u64);
    c.distinct(&format!("{rules:?}{}", text(&before)));
}

/// What a value stands for when casts and materialised conversions are looked through.
fn origin(ctx: &IrContext, mut v: ValueRef) -> V {
    loop {
        match ctx.value_def(v) {
            ValueDef::OpResult(o, 0) if (ctx.op(o).dialect == *"core" && ctx.op(o).name == *"unrealized_conversion_cast") || ctx.op(o).name == *"mat" => v = ctx.op_operands(o)[0],
            _ => return val(ctx, v),
        }
    }
}
fn is_cast(ctx: &IrContext, o: OpRef) -> bool {
    ctx.op(o).dialect == *"core" && ctx.op(o).name == *"unrealized_conversion_cast"
}
/// The module without casts and without types.
fn skeleton(ctx: &IrContext, o: OpRef, ind: usize, out: &mut String) {
    if is_cast(ctx, o) || ctx.op(o).name == *"mat" {
        return;
    }
    let d = ctx.op(o);
    let vs: Vec<V> = ctx.op_operands(o).iter().map(|v| origin(ctx, *v)).collect();
    let mut attrs: Vec<String> = d.attributes.iter().filter(|(k, _)| **k != *"type").map(|(k, a)| format!("{k}={a:?}")).collect();
    attrs.sort();
    out.push_str(&format!("{:ind$}{}.{} {:?} res={} {attrs:?}\n", "", d.dialect, d.name, vs, ctx.op_results(o).len()));
    for &r in d.regions.iter() {
        for &b in ctx.region(r).blocks.iter() {
            out.push_str(&format!("{:ind$} {b} {}\n", "", ctx.block_args(b).len()));
            for &x in ctx.block(b).ops.iter() {
                skeleton(ctx, x, ind + 2, out);
            }
        }
    }
}

fn convert_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ctx = IrContext::new();
    let mut r2 = r.clone();
    let wasm = r.chance(40);
    let mut b = fresh(&mut ctx, &mut r2);
    let tys = b.tys.clone();
    let m = b.module(if wasm { "wasm" } else { "func" });
    // conversion: i32 -> i64, f64 -> ptr, each present or not; results are never converted again
    let mut map: BTreeMap<TypeRef, TypeRef> = BTreeMap::new();
    if r.chance(85) {
        map.insert(tys[0], tys[1]);
    }
    if r.chance(60) {
        map.insert(tys[2], if r.chance(50) { tys[3] } else { tys[1] });
    }
    let legal_dialect = r.chance(50);
    let renames = r.chance(70);
    let signature = r.chance(80);
    let auto = r.chance(85);
    let mut before = String::new();
    skeleton(&ctx, m, 0, &mut before);
    c.input(format!("convert {map:?} legal t1: {legal_dialect} rename t0.k0: {renames} signatures: {signature} auto: {auto}\n{}", trunk_ir::printer::print_module(&ctx, m)));
    let conv = Rc::new(map.clone());
    let mk = |with_mat: Option<bool>| {
        let mut tc = TypeConverter::new();
        let c2 = conv.clone();
        tc.add_conversion(move |_, t| c2.get(&t).copied());
        if let Some(all) = with_mat {
            let odd = tys[3];
            tc.set_materializer(move |ctx, loc, v, _from, to| {
                if !all && to == odd {
                    return None;
                }
                let d = OperationDataBuilder::new(loc, Symbol::new("t1"), Symbol::new("mat")).operand(v).result(to).build(ctx);
                let o = ctx.create_op(d);
                Some(MaterializeResult { value: ctx.op_result(o, 0), ops: vec![o] })
            });
        }
        tc
    };
    let mut app = PatternApplicator::new(mk(None)).with_auto_type_conversion(auto).with_max_iterations(20);
    if legal_dialect {
        app = app.with_target(ConversionTarget::new().legal_dialect("t1"));
    }
    let rule = Rule { d: 0, kind: 0, min_operands: 0, modulo: None, act: Act::Rename(1, 7) };
    if renames {
        app = app.add_pattern(RulePattern { rule: rule.clone(), idx: 0 });
    }
    if signature {
        app = app.add_pattern(FuncSignatureConversionPattern).add_pattern(WasmFuncSignatureConversionPattern);
    }
    let module = Module::new(&ctx, m).unwrap();
    // the attributes of functions, and their parameter types, before
    let sigs: Vec<(i64, TypeRef, Vec<TypeRef>)> = module
        .ops(&ctx)
        .iter()
        .filter(|o| ctx.op(**o).name == *"func")
        .map(|o| {
            let d = ctx.op(*o);
            let args = d.regions.first().map(|r| ctx.block_args(ctx.region(*r).blocks[0]).iter().map(|v| ctx.value_ty(*v)).collect()).unwrap_or_default();
            (opid(&ctx, *o), d.attributes.get_type("type").unwrap(), args)
        })
        .collect();
    let res = app.apply_partial(&mut ctx, module);
    if !res.reached_fixpoint {
        c.violation("no fixpoint in 20 iterations of a one-step conversion");
        return;
    }
    let e = integrity::check_links(&ctx, m);
    if !e.is_empty() {
        c.violation(format!("after conversion: {}", e[0]));
        return;
    }
    let e = integrity::check_dominance(&ctx, m);
    if !e.is_empty() {
        c.violation(format!("after conversion: {}", e[0]));
        return;
    }
    let mut after = String::new();
    skeleton(&ctx, m, 0, &mut after);
    let want = if renames { before.lines().map(|l| {
        let t = l.trim_start();
        if t.starts_with("t0.k0 ") { l.replacen("t0.k0 ", "t1.k7 ", 1) } else { l.to_string() }
    }).collect::<Vec<_>>().join("\n") + "\n" } else { before.clone() };
    if after != want {
        c.violation(format!("conversion changed more than types: {}", crate::irgen::diff(&want, &after)));
        return;
    }
    let f = |t: TypeRef| map.get(&t).copied().unwrap_or(t);
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(&ctx, m, &mut t, &mut vec![]);
    let mut casts = 0;
    for &o in &t.ops {
        if o == m {
            continue;
        }
        if is_cast(&ctx, o) {
            casts += 1;
            let v = ctx.op_operands(o)[0];
            if map.values().all(|x| *x != ctx.op_result_types(o)[0]) {
                c.violation(format!("a cast of {v} to a type nothing converts to"));
                return;
            }
            continue;
        }
        let legal = legal_dialect && ctx.op(o).dialect == *"t1";
        if auto && !legal && !map.is_empty() {
            for (i, &v) in ctx.op_operands(o).iter().enumerate() {
                if map.contains_key(&ctx.value_ty(v)) {
                    c.violation(format!("operand {i} of {}.{} still has a type to be converted", ctx.op(o).dialect, ctx.op(o).name));
                    return;
                }
            }
        }
    }
    if auto {
        for &b in &t.blocks {
            for &v in ctx.block_args(b) {
                if map.contains_key(&ctx.value_ty(v)) {
                    c.violation(format!("argument {v} of {b} still has a type to be converted"));
                    return;
                }
            }
        }
    } else if casts > 0 {
        c.violation("casts were inserted although automatic conversion is off");
        return;
    }
    for o in module.ops(&ctx) {
        if ctx.op(o).name != *"func" {
            continue;
        }
        let d = ctx.op(o);
        let (_, ty, args) = sigs.iter().find(|s| s.0 == opid(&ctx, o)).unwrap();
        let now = ctx.types.get(d.attributes.get_type("type").unwrap());
        let was = ctx.types.get(*ty);
        let want: Vec<TypeRef> = was.params.iter().map(|t| f(*t)).collect();
        // without automatic conversion nothing else touches the arguments
        if signature && now.params.as_slice() != want.as_slice() {
            // automatic conversion may run first, the signature must still be converted
            c.violation(format!("function {} has signature {:?}, should be {want:?}", opid(&ctx, o), now.params));
            return;
        }
        if !signature && d.attributes.get_type("type") != Some(*ty) {
            c.violation("a function signature changed without a pattern for it");
            return;
        }
        if let Some(r) = d.regions.first() {
            let have: Vec<TypeRef> = ctx.block_args(ctx.region(*r).blocks[0]).iter().map(|v| ctx.value_ty(*v)).collect();
            let want: Vec<TypeRef> = if auto || signature { args.iter().map(|t| f(*t)).collect() } else { args.clone() };
            if have != want {
                c.violation(format!("function {} has parameters {have:?}, should be {want:?}", opid(&ctx, o)));
                return;
            }
        }
    }
    c.st.count("casts inserted", casts);
    // now resolve the casts
    let all = r.chance(50);
    let tc = mk(Some(all));
    // sometimes a cast nobody can resolve, and chains of casts
    if r.chance(60) {
        let spots: Vec<OpRef> = t.ops.iter().copied().filter(|o| !ctx.op_operands(*o).is_empty() && !is_cast(&ctx, *o) && ctx.op(*o).parent_block.is_some()).collect();
        for _ in 0..r.below(4) {
            if spots.is_empty() {
                break;
            }
            let o = *r.pick(&spots);
            let k = r.below(ctx.op_operands(o).len());
            let v = ctx.op_operands(o)[k];
            let loc = ctx.op(o).location;
            let to = *r.pick(&tys);
            let cast = trunk_ir::dialect::core::unrealized_conversion_cast(&mut ctx, loc, v, to);
            let (co, cv) = (cast.op_ref(), cast.result(&ctx));
            ctx.insert_op_before(ctx.op(o).parent_block.unwrap(), o, co);
            ctx.set_op_operand(o, k as u32, cv);
        }
    }
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(&ctx, m, &mut t, &mut vec![]);
    let ncasts = t.ops.iter().filter(|o| is_cast(&ctx, **o)).count();
    let res = resolve_unrealized_casts(&mut ctx, module, &tc);
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(&ctx, m, &mut t, &mut vec![]);
    let left: Vec<OpRef> = t.ops.iter().copied().filter(|o| is_cast(&ctx, *o)).collect();
    if res.resolved_count + left.len() != ncasts || res.unresolved.len() != left.len() {
        c.violation(format!("{ncasts} casts, {} resolved, {} reported unresolved, {} left", res.resolved_count, res.unresolved.len(), left.len()));
        return;
    }
    for &o in &left {
        let to = ctx.op_result_types(o)[0];
        let from = ctx.value_ty(ctx.op_operands(o)[0]);
        let to = f(to);
        if all || to != tys[3] || from == to {
            c.violation(format!("a cast from {from:?} to {to:?} was left although it can be resolved"));
            return;
        }
    }
    let e: Vec<String> = integrity::check_links(&ctx, m).into_iter().chain(integrity::check_dominance(&ctx, m)).collect();
    if !e.is_empty() {
        c.violation(format!("after resolving casts: {}", e[0]));
        return;
    }
    let mut last = String::new();
    skeleton(&ctx, m, 0, &mut last);
    if last != after {
        c.violation(format!("resolving casts changed what values mean: {}", crate::irgen::diff(&after, &last)));
        return;
    }
    // a materialised conversion goes between different types
    for &o in &t.ops {
        if ctx.op(o).name == *"mat" && ctx.value_ty(ctx.op_operands(o)[0]) == ctx.op_result_types(o)[0] {
            c.violation("a conversion between equal types was materialised");
            return;
        }
    }
    c.st.count("casts resolved", res.resolved_count as u64);
    c.st.count("casts reported unresolved", left.len() as u64);
    c.distinct(&before);
}

pub fn check_rewrite(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("A case is one module with one set of rules, legality target, scope and iteration limit; distinct by module and rules.".into());
    st.merge(run_cases(cfg, "rewrite", cfg.n(8000, 120_000), rewrite_case));
    st.merge(run_cases(cfg, "convert", cfg.n(5000, 80_000), convert_case));
    st
}
