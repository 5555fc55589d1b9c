//! Random structurally well-formed IR built through the context API, and a canonical
//! structural dump of an operation tree that is independent of the printer.
use crate::rng::Rng;
use std::collections::HashMap;
use std::fmt::Write;
use trunk_ir::context::{BlockArgData, BlockData, OperationDataBuilder, RegionData};
use trunk_ir::types::{Attribute, AttributeMap, Location, TypeDataBuilder};
use trunk_ir::{BlockRef, IrContext, OpRef, RegionRef, Span, Symbol, TypeRef, ValueRef};

/// Length-prefixed escaping-free text of a symbol or string.
fn q(s: &str) -> String {
    format!("{}:{}", s.len(), s)
}

pub struct Dump<'a> {
    ctx: &'a IrContext,
    vals: HashMap<ValueRef, usize>,
    blocks: HashMap<BlockRef, usize>,
    pub out: String,
    types: HashMap<TypeRef, String>,
    /// keep attributes of modules other than the name, keep empty-region distinctions
    pub strict: bool,
}

impl<'a> Dump<'a> {
    pub fn new(ctx: &'a IrContext) -> Self {
        Dump { ctx, vals: HashMap::new(), blocks: HashMap::new(), out: String::new(), types: HashMap::new(), strict: false }
    }
    pub fn ty(&mut self, t: TypeRef) -> String {
        if let Some(s) = self.types.get(&t) {
            return s.clone();
        }
        let d = self.ctx.types.get(t);
        let mut o = format!("<{}.{}", d.dialect, d.name);
        for &p in d.params.iter() {
            let s = self.ty(p);
            let _ = write!(o, " {s}");
        }
        o.push_str(&self.attrs(&d.attrs));
        o.push('>');
        self.types.insert(t, o.clone());
        o
    }
    fn attr(&mut self, a: &Attribute) -> String {
        match a {
            Attribute::Unit => "unit".into(),
            Attribute::Bool(b) => format!("bool {b}"),
            Attribute::Int(i) => format!("int {i}"),
            Attribute::FloatBits(b) => format!("float {b:016x}"),
            Attribute::String(s) => format!("str {}", q(s)),
            Attribute::Bytes(b) => format!("bytes {:?}", b.as_slice()),
            Attribute::Type(t) => format!("type {}", self.ty(*t)),
            Attribute::Symbol(s) => s.with_str(|s| format!("sym {}", q(s))),
            Attribute::List(l) => format!("[{}]", l.iter().map(|x| self.attr(x)).collect::<Vec<_>>().join(" ; ")),
            Attribute::Location(l) => format!("loc {} {} {}", q(self.ctx.paths.get(l.path)), l.span.start, l.span.end),
        }
    }
    fn attrs(&mut self, m: &AttributeMap) -> String {
        let mut v: Vec<(String, String)> = m.iter().map(|(k, a)| (k.with_str(|s| s.to_string()), self.attr(a))).collect();
        v.sort();
        let mut o = String::from("{");
        for (k, a) in v {
            let _ = write!(o, "{}={a};", q(&k));
        }
        o.push('}');
        o
    }
    fn val(&mut self, v: ValueRef) -> String {
        match self.vals.get(&v) {
            Some(n) => format!("v{n}"),
            None => "v?".into(),
        }
    }
    fn def(&mut self, v: ValueRef) {
        let n = self.vals.len();
        self.vals.insert(v, n);
    }
    /// number every definition in the tree first, so that forward references have a name too
    fn number(&mut self, op: OpRef) {
        for &v in self.ctx.op_results(op) {
            self.def(v);
        }
        for &r in self.ctx.op(op).regions.iter() {
            for &b in self.ctx.region(r).blocks.iter() {
                let n = self.blocks.len();
                self.blocks.insert(b, n);
                for &v in self.ctx.block_args(b) {
                    self.def(v);
                }
                for &o in self.ctx.block(b).ops.iter() {
                    self.number(o);
                }
            }
        }
    }
    pub fn run(&mut self, op: OpRef) {
        self.number(op);
        self.op(op, 0);
    }
    fn op(&mut self, op: OpRef, ind: usize) {
        let ctx = self.ctx;
        let d = ctx.op(op);
        let mut line = format!("{:ind$}", "");
        for &v in ctx.op_results(op) {
            let n = self.val(v);
            let t = self.ty(ctx.value_ty(v));
            let _ = write!(line, "{n}{t} ");
        }
        let _ = write!(line, "= {}.{} (", d.dialect, d.name);
        for &v in ctx.op_operands(op) {
            let n = self.val(v);
            let _ = write!(line, "{n} ");
        }
        let _ = write!(line, ") [");
        for b in d.successors.iter() {
            let _ = write!(line, "{:?} ", self.blocks.get(b));
        }
        let a = self.attrs(&d.attributes);
        let _ = writeln!(line, "] {a} regions={}", d.regions.len());
        self.out.push_str(&line);
        for &r in d.regions.iter() {
            let _ = writeln!(self.out, "{:ind$} region", "");
            for &b in ctx.region(r).blocks.iter() {
                let mut l = format!("{:ind$}  block {} (", "", self.blocks[&b]);
                for &v in ctx.block_args(b) {
                    let n = self.val(v);
                    let t = self.ty(ctx.value_ty(v));
                    let _ = write!(l, "{n}{t} ");
                }
                l.push_str(")\n");
                self.out.push_str(&l);
                for &o in ctx.block(b).ops.iter() {
                    self.op(o, ind + 3);
                }
            }
        }
    }
}

pub fn dump(ctx: &IrContext, op: OpRef) -> String {
    let mut d = Dump::new(ctx);
    d.run(op);
    d.out
}

/// First differing line of two dumps.
pub fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        let (p, r) = (x.get(i).copied().unwrap_or("(end)"), y.get(i).copied().unwrap_or("(end)"));
        if p != r {
            let cut = |s: &str| s.chars().take(400).collect::<String>();
            return format!("line {i}: before [{}] after [{}]", cut(p), cut(r));
        }
    }
    "no difference".into()
}

#[derive(Clone, Debug)]
pub struct IrCfg {
    pub depth: usize,
    pub max_ops: usize,
    pub max_blocks: usize,
    pub nested_modules: bool,
    pub attrs: bool,
    pub aliases: bool,
    pub weird_names: bool,
    /// names from a small pool
    pub crowded: bool,
    /// up to this many operands, results, successors, attributes
    pub wide: usize,
}

pub struct IrGen<'a> {
    pub ctx: &'a mut IrContext,
    pub rng: &'a mut Rng,
    pub cfg: IrCfg,
    pub loc: Location,
    types: Vec<TypeRef>,
    budget: usize,
    uid: usize,
    /// custom-format function-like operations available (dialects of the full build)
    pub exotic: bool,
}

const DIALECTS: [&str; 7] = ["test", "arith", "core", "mem", "a", "_x9", "Wide"];
const NAMES: [&str; 9] = ["foo", "add", "b", "op_1", "_", "Yield", "x0y", "make_thing", "attributes"];

pub fn rand_string(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9, 20, 60]);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(14) {
            0 => '"',
            1 => '\\',
            2 => '\n',
            3 => '\t',
            4 => '\r',
            5 => '\0',
            6 => char::from_u32(r.below(32) as u32).unwrap(),
            7 => char::from_u32(0x7f + r.below(34) as u32).unwrap(),
            8 => *r.pick(&['é', '한', '🦀', '\u{200b}', '\u{feff}', '\u{a0}', '\u{2028}', 'ÿ', '\u{ad}']),
            9 => *r.pick(&['x', '0', 'n', '{', '}', '(', ')', '@', '%', '^', '!', ' ', '#', '/', '\'', ',', ':', '=', '-', '>']),
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s
}

impl<'a> IrGen<'a> {
    pub fn new(ctx: &'a mut IrContext, rng: &'a mut Rng, cfg: IrCfg) -> Self {
        let p = ctx.paths.intern("gen".to_string());
        let loc = Location::new(p, Span::new(0, 0));
        let budget = cfg.max_ops;
        let mut g = IrGen { ctx, rng, cfg, loc, types: vec![], budget, uid: 0, exotic: false };
        for n in ["i32", "i64", "i1", "f64", "ptr", "nil"] {
            let t = g.ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::from_dynamic(n)).build());
            g.types.push(t);
        }
        let k = 2 + g.rng.below(8);
        for _ in 0..k {
            let t = g.new_type();
            g.types.push(t);
        }
        g
    }
    pub fn symbol(&mut self) -> Symbol {
        if self.cfg.crowded && self.rng.chance(60) {
            // few names, so that they collide with each other and with generated ones
            let s = *self.rng.pick(&["T", "T_1", "T_2", "T_3", "T_1_1", "t0", "t1", "t2", "t3", "a b", "a b_1", "a b_2"]);
            return Symbol::from_dynamic(s);
        }
        if self.cfg.weird_names && self.rng.chance(25) {
            let s = rand_string(self.rng);
            return Symbol::from_dynamic(&s);
        }
        self.uid += 1;
        let u = self.uid;
        match self.rng.below(7) {
            0 => Symbol::from_dynamic(&format!("f{u}")),
            1 => Symbol::from_dynamic(&format!("std::List::map{u}")),
            2 => Symbol::from_dynamic(&format!("Map(Int, {u})")),
            3 => Symbol::from_dynamic(&format!("{u}x")),
            4 => Symbol::from_dynamic(&format!("_{u}")),
            5 => Symbol::from_dynamic(&format!("a.b{u}")),
            _ => Symbol::from_dynamic(&format!("name_{u}")),
        }
    }
    fn key(&mut self) -> Symbol {
        let k = *self.rng.pick(&["value", "name", "a", "_k", "tribute.calling_convention", "x.y.z", "k1", "type", "sym_name", "fields", "unit_", "trueish", "loc_", "k2", "k3", "k10", "k9", "zz"]);
        Symbol::from_dynamic(k)
    }
    pub fn attr(&mut self, depth: usize) -> Attribute {
        match self.rng.below(if depth == 0 { 9 } else { 11 }) {
            0 => Attribute::Unit,
            1 => Attribute::Bool(self.rng.chance(50)),
            2 | 3 => {
                let v = match self.rng.below(6) {
                    0 => i128::MIN,
                    1 => i128::MAX,
                    2 => i64::MIN as i128 - self.rng.below(3) as i128,
                    3 => u64::MAX as i128 + self.rng.below(3) as i128,
                    4 => self.rng.range(-100, 100) as i128,
                    _ => ((self.rng.u64() as u128) << 64 | self.rng.u64() as u128) as i128 >> self.rng.below(127),
                };
                Attribute::Int(v)
            }
            4 => {
                let v = loop {
                    let v = match self.rng.below(9) {
                        0 => 0.0,
                        1 => -0.0,
                        2 => f64::MAX,
                        3 => f64::MIN_POSITIVE,
                        4 => f64::from_bits(1),
                        5 => self.rng.range(-1000, 1000) as f64,
                        6 => 0.1 + self.rng.below(100) as f64 / 8.0,
                        7 => -1e300,
                        _ => f64::from_bits(self.rng.u64()),
                    };
                    if v.is_finite() {
                        break v;
                    }
                };
                Attribute::FloatBits(v.to_bits())
            }
            5 => Attribute::String(rand_string(self.rng)),
            6 => {
                let n = *self.rng.pick(&[0usize, 1, 2, 4, 8, 17, 40]);
                let v: Vec<u8> = (0..n).map(|_| if self.rng.chance(50) { self.rng.u64() as u8 } else { *self.rng.pick(b"\"\\\n\t\r\0x0ab \x7f") }).collect();
                Attribute::Bytes(v.into_iter().collect())
            }
            7 => Attribute::Symbol(self.symbol()),
            8 => {
                let s = rand_string(self.rng);
                let p = self.ctx.paths.intern(s);
                let a = self.rng.u64() as usize >> self.rng.below(64);
                let e = self.rng.u64() as usize >> self.rng.below(64);
                Attribute::Location(Location::new(p, Span::new(a.min(e), a.max(e))))
            }
            9 => {
                let t = self.ty();
                Attribute::Type(t)
            }
            _ => {
                let n = self.rng.below(4);
                Attribute::List((0..n).map(|_| self.attr(depth - 1)).collect())
            }
        }
    }
    pub fn new_type(&mut self) -> TypeRef {
        let (d, n) = (*self.rng.pick(&DIALECTS), *self.rng.pick(&NAMES));
        let mut b = TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n));
        if self.rng.chance(30) {
            // named aggregates, which the printer gives a name hint
            let kind = *self.rng.pick(&["struct", "enum", "struct", "enum", "enum$Some", "enum$v_1$2"]);
            b = TypeDataBuilder::new(Symbol::new("adt"), Symbol::from_dynamic(kind));
            let s = self.symbol();
            b = b.attr(Symbol::new("name"), Attribute::Symbol(s));
        }
        let k = *self.rng.pick(&[0usize, 0, 1, 1, 2, 3, 6]);
        for _ in 0..k {
            let t = if self.types.is_empty() { continue } else { *self.rng.pick(&self.types) };
            b = b.param(t);
        }
        if self.cfg.attrs && self.rng.chance(35) {
            for _ in 0..1 + self.rng.below(3) {
                let k = self.key();
                let a = if self.types.is_empty() { Attribute::Unit } else { self.attr(2) };
                b = b.attr(k, a);
            }
        }
        self.ctx.types.intern(b.build())
    }
    pub fn ty(&mut self) -> TypeRef {
        if self.types.len() < 24 && self.rng.chance(12) {
            let t = self.new_type();
            self.types.push(t);
            return t;
        }
        *self.rng.pick(&self.types)
    }
    fn block(&mut self, args: &[TypeRef]) -> BlockRef {
        let args = args.iter().map(|&ty| BlockArgData { ty, attrs: AttributeMap::new() }).collect();
        self.ctx.create_block(BlockData { location: self.loc, args, ops: Default::default(), parent_region: None })
    }
    pub fn region_of(&mut self, blocks: Vec<BlockRef>) -> RegionRef {
        self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.into_iter().collect(), parent_op: None })
    }
    /// A region whose entry takes `entry` arguments; uses respect dominance and text order.
    pub fn region(&mut self, entry: &[TypeRef], scope: &[ValueRef], depth: usize) -> RegionRef {
        let nb = 1 + if depth < 3 && self.rng.chance(45) { self.rng.below(self.cfg.max_blocks) } else { 0 };
        let mut blocks = vec![];
        for i in 0..nb {
            let tys: Vec<TypeRef> = if i == 0 {
                entry.to_vec()
            } else {
                let k = self.rng.below(3);
                (0..k).map(|_| self.ty()).collect()
            };
            blocks.push(self.block(&tys));
        }
        let r = self.region_of(blocks.clone());
        let mut entry_scope = scope.to_vec();
        for (i, &b) in blocks.iter().enumerate() {
            let mut vals = entry_scope.clone();
            vals.extend_from_slice(self.ctx.block_args(b));
            let k = 1 + self.rng.below(5);
            for _ in 0..k {
                if self.budget == 0 {
                    break;
                }
                self.op_in(b, &mut vals, depth);
            }
            // terminator
            let mut t = OperationDataBuilder::new(self.loc, Symbol::new("test"), Symbol::new("term"));
            for _ in 0..self.rng.below(self.cfg.wide) {
                if !vals.is_empty() {
                    let v = *self.rng.pick(&vals);
                    t = t.operand(v);
                }
            }
            if nb > 1 {
                for _ in 0..self.rng.below(self.cfg.wide) {
                    // the entry block is no branch target
                    let s = blocks[1 + self.rng.below(nb - 1)];
                    t = t.successor(s);
                }
            }
            let d = t.build(self.ctx);
            let o = self.ctx.create_op(d);
            self.ctx.push_op(b, o);
            if i == 0 {
                entry_scope = vals;
            }
        }
        r
    }
    fn op_in(&mut self, b: BlockRef, vals: &mut Vec<ValueRef>, depth: usize) {
        self.budget -= 1;
        let (d, n) = (*self.rng.pick(&DIALECTS), *self.rng.pick(&NAMES));
        let mut o = OperationDataBuilder::new(self.loc, Symbol::from_dynamic(d), Symbol::from_dynamic(n));
        for _ in 0..self.rng.below(self.cfg.wide) {
            if !vals.is_empty() {
                let v = *self.rng.pick(vals);
                o = o.operand(v);
            }
        }
        // values cannot be shared between top-level operations
        let top = vals.is_empty() && depth == 99;
        for _ in 0..if top { 0 } else { *self.rng.pick(&[0usize, 1, 1, 1, 2, self.cfg.wide - 1]) } {
            let t = self.ty();
            o = o.result(t);
        }
        if self.cfg.attrs && self.rng.chance(60) {
            for _ in 0..1 + self.rng.below(self.cfg.wide - 1) {
                let k = self.key();
                let a = self.attr(3);
                o = o.attr(k, a);
            }
        }
        let depth = if top { 0 } else { depth };
        if depth < self.cfg.depth && self.rng.chance(30) {
            for _ in 0..1 + self.rng.below(self.cfg.wide / 2) {
                let k = self.rng.below(self.cfg.wide - 1);
                let tys: Vec<TypeRef> = (0..k).map(|_| self.ty()).collect();
                let sc = if self.rng.chance(80) { vals.clone() } else { vec![] };
                let r = self.region(&tys, &sc, depth + 1);
                o = o.region(r);
            }
        }
        let d = o.build(self.ctx);
        let op = self.ctx.create_op(d);
        self.ctx.push_op(b, op);
        vals.extend_from_slice(self.ctx.op_results(op));
    }
    fn extra_attrs(&mut self, mut o: OperationDataBuilder) -> OperationDataBuilder {
        if self.cfg.attrs && self.rng.chance(40) {
            for _ in 0..1 + self.rng.below(2) {
                let k = *self.rng.pick(&["abi", "a", "x.y", "tribute.cc", "unit_k"]);
                let a = self.attr(2);
                o = o.attr(Symbol::from_dynamic(k), a);
            }
        }
        o
    }
    pub fn func(&mut self) -> OpRef {
        let name = self.symbol();
        let k = self.rng.below(4);
        let params: Vec<TypeRef> = (0..k).map(|_| self.ty()).collect();
        let ret = self.ty();
        let mut fb = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(ret);
        for &p in &params {
            fb = fb.param(p);
        }
        let ft = self.ctx.types.intern(fb.build());
        let mut o = OperationDataBuilder::new(self.loc, Symbol::new("func"), Symbol::new("func"))
            .attr(Symbol::new("sym_name"), Attribute::Symbol(name))
            .attr(Symbol::new("type"), Attribute::Type(ft));
        o = self.extra_attrs(o);
        if self.rng.chance(88) {
            let r = self.region(&params, &[], 0);
            o = o.region(r);
        }
        let d = o.build(self.ctx);
        self.ctx.create_op(d)
    }
    /// A function-like or closure-like operation with its own text format.
    fn control_func(&mut self) -> OpRef {
        let name = self.symbol();
        let k = self.rng.below(4);
        let params: Vec<TypeRef> = (0..k).map(|_| self.ty()).collect();
        let ret = self.ty();
        let ct = self.callable(ret, &params);
        let mut o = OperationDataBuilder::new(self.loc, Symbol::new("tribute_control"), Symbol::new("func"))
            .attr(Symbol::new("sym_name"), Attribute::Symbol(name))
            .attr(Symbol::new("type"), Attribute::Type(ct));
        o = self.extra_attrs(o);
        if self.rng.chance(88) {
            let b = self.block(&params);
            let r = self.region_of(vec![b]);
            let mut vals = self.ctx.block_args(b).to_vec();
            for _ in 0..1 + self.rng.below(4) {
                if self.budget > 0 {
                    self.op_in(b, &mut vals, 1);
                }
                if self.rng.chance(50) {
                    self.lambda_in(b, &mut vals, 2);
                }
            }
            let d = OperationDataBuilder::new(self.loc, Symbol::new("test"), Symbol::new("term")).build(self.ctx);
            let t = self.ctx.create_op(d);
            self.ctx.push_op(b, t);
            o = o.region(r);
        }
        let d = o.build(self.ctx);
        self.ctx.create_op(d)
    }
    fn callable(&mut self, ret: TypeRef, params: &[TypeRef]) -> TypeRef {
        let cc = self.rng.below(3) as i128;
        let mut fb = TypeDataBuilder::new(Symbol::new("tribute_control"), Symbol::new("callable"))
            .param(ret)
            .attr(Symbol::new("tribute.calling_convention"), Attribute::Int(cc));
        for &p in params {
            fb = fb.param(p);
        }
        self.ctx.types.intern(fb.build())
    }
    fn lambda_in(&mut self, b: BlockRef, vals: &mut Vec<ValueRef>, depth: usize) {
        let k = self.rng.below(3);
        let params: Vec<TypeRef> = (0..k).map(|_| self.ty()).collect();
        let ret = self.ty();
        let caps: Vec<ValueRef> = if vals.is_empty() { vec![] } else { (0..self.rng.below(3)).map(|_| *self.rng.pick(vals)).collect() };
        let scope = vals.clone();
        let body = self.region(&params, &scope, depth);
        let control = self.rng.chance(50);
        let mut o = if control {
            let ct = self.callable(ret, &params);
            OperationDataBuilder::new(self.loc, Symbol::new("tribute_control"), Symbol::new("lambda")).result(ct)
        } else {
            let mut fb = TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(ret);
            for &p in &params {
                fb = fb.param(p);
            }
            let ft = self.ctx.types.intern(fb.build());
            let ct = self.ctx.types.intern(TypeDataBuilder::new(Symbol::new("closure"), Symbol::new("closure")).param(ft).build());
            OperationDataBuilder::new(self.loc, Symbol::new("closure"), Symbol::new("lambda")).result(ct)
        };
        o = o.operands(caps);
        // listed finding: the text of a closure literal with attributes of its own is ambiguous
        // after a parenthesised result type that has none
        let rd = self.ctx.types.get(ret);
        if control || rd.params.is_empty() || !rd.attrs.is_empty() {
            o = self.extra_attrs(o);
        }
        o = o.region(body);
        let d = o.build(self.ctx);
        let op = self.ctx.create_op(d);
        self.ctx.push_op(b, op);
        vals.extend_from_slice(self.ctx.op_results(op));
    }
    pub fn module(&mut self, depth: usize) -> OpRef {
        let b = self.block(&[]);
        let r = self.region_of(vec![b]);
        let n = 1 + self.rng.below(5);
        for _ in 0..n {
            let op = match self.rng.below(10) {
                0 if self.cfg.nested_modules && depth < 2 => self.module(depth + 1),
                1 | 2 => {
                    let mut vals = vec![];
                    if self.budget == 0 {
                        continue;
                    }
                    self.op_in(b, &mut vals, 99);
                    continue;
                }
                3..=5 if self.exotic => self.control_func(),
                _ => self.func(),
            };
            self.ctx.push_op(b, op);
        }
        if self.ctx.block(b).ops.is_empty() {
            let op = self.func();
            self.ctx.push_op(b, op);
        }
        if self.cfg.aliases && depth == 0 {
            for _ in 0..self.rng.below(4) {
                let t = self.ty();
                let s = self.symbol();
                self.ctx.register_type_alias(s, t);
            }
        }
        let name = self.symbol();
        let d = OperationDataBuilder::new(self.loc, Symbol::new("core"), Symbol::new("module"))
            .attr(Symbol::new("sym_name"), Attribute::Symbol(name))
            .region(r)
            .build(self.ctx);
        self.ctx.create_op(d)
    }
}
