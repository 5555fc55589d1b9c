//! A monitor for the reference-counting stage: executes `clif` IR on a heap whose objects know
//! their count, their fields and who refers to them. Used before retain/release insertion (the
//! program's meaning) and after it (the meaning plus every retain and release).
use crate::interp::sym_str;
use std::collections::{BTreeMap, HashMap, HashSet};
use trunk_ir::context::IrContext;
use trunk_ir::{Attribute, OpRef, Symbol, ValueRef};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    I(i64),
    P(usize, i64),
    F(Symbol),
    U,
}

#[derive(Clone, Debug)]
pub struct Obj {
    size: i64,
    rc: i64,
    freed: bool,
    slots: BTreeMap<i64, (V, bool)>,
    /// owning fields of live objects that point here
    held: i64,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Stop {
    /// the monitor objects
    Bad(String),
    Trap,
    Fuel,
    Unsupported(String),
}

pub struct Vm<'a> {
    ctx: &'a IrContext,
    funcs: HashMap<Symbol, OpRef>,
    owning: &'a HashSet<OpRef>,
    inputs: Vec<u64>,
    pub heap: Vec<Obj>,
    pub trace: Vec<String>,
    pub retains: u64,
    pub releases: u64,
    pub frees: u64,
    pub steps: u64,
    fuel: u64,
    depth: u32,
    counted: bool,
}

/// Stores that put a counted reference into memory, found before insertion erases the types.
pub fn owning_stores(ctx: &IrContext, m: OpRef) -> HashSet<OpRef> {
    let mut out = HashSet::new();
    walk(ctx, m, &mut |op| {
        let d = ctx.op(op);
        if d.dialect == Symbol::new("clif") && d.name == Symbol::new("store") {
            let t = ctx.types.get(ctx.value_ty(ctx.op_operands(op)[0]));
            if t.dialect == Symbol::new("tribute_rt") && t.name == Symbol::new("anyref") {
                out.insert(op);
            }
        }
    });
    out
}

fn walk(ctx: &IrContext, op: OpRef, f: &mut impl FnMut(OpRef)) {
    f(op);
    for r in &ctx.op(op).regions {
        for b in &ctx.region(*r).blocks {
            for o in &ctx.block(*b).ops {
                walk(ctx, *o, f);
            }
        }
    }
}

enum Flow {
    Ret(Vec<V>),
    Tail(V, Vec<V>),
}

impl<'a> Vm<'a> {
    pub fn new(ctx: &'a IrContext, m: OpRef, owning: &'a HashSet<OpRef>, inputs: &[u64], fuel: u64) -> Self {
        let mut funcs = HashMap::new();
        walk(ctx, m, &mut |op| {
            let d = ctx.op(op);
            if d.dialect == Symbol::new("clif") && d.name == Symbol::new("func") {
                if let Some(Attribute::Symbol(s)) = d.attributes.get("sym_name") {
                    funcs.insert(*s, op);
                }
            }
        });
        Vm {
            ctx,
            funcs,
            owning,
            inputs: inputs.to_vec(),
            heap: vec![],
            trace: vec![],
            retains: 0,
            releases: 0,
            frees: 0,
            steps: 0,
            fuel,
            depth: 0,
            counted: true,
        }
    }
    /// For code that does not count yet.
    pub fn uncounted(mut self) -> Self {
        self.counted = false;
        self
    }
    pub fn run(&mut self, f: &str) -> Result<(), Stop> {
        self.call(Symbol::from_dynamic(f), vec![]).map(|_| ())?;
        // whatever is still alive must be counted at least once per field that refers to it
        for (i, o) in self.heap.iter().enumerate() {
            if self.counted && !o.freed && o.held > 0 && o.rc < o.held {
                return Err(Stop::Bad(format!("object {i} ends with count {} but {} live fields refer to it", o.rc, o.held)));
            }
        }
        Ok(())
    }
    pub fn live(&self) -> usize {
        self.heap.iter().filter(|o| !o.freed).count()
    }

    fn obj(&mut self, v: V, what: &str) -> Result<(usize, i64), Stop> {
        match v {
            V::P(i, off) => {
                if self.heap[i].freed {
                    return Err(Stop::Bad(format!("{what} of an object that was already released (size {})", self.heap[i].size)));
                }
                Ok((i, off))
            }
            V::I(0) => Err(Stop::Trap),
            o => Err(Stop::Unsupported(format!("{what} through {o:?}"))),
        }
    }
    fn retain(&mut self, v: V) -> Result<(), Stop> {
        if v == V::I(0) {
            return Ok(());
        }
        if let V::F(_) = v {
            return Err(Stop::Bad("retain of a code address".into()));
        }
        let (i, off) = self.obj(v, "retain")?;
        if off != 8 {
            return Err(Stop::Bad(format!("retain of an interior pointer (offset {off})")));
        }
        self.retains += 1;
        self.heap[i].rc += 1;
        Ok(())
    }
    fn release(&mut self, v: V, size: i64) -> Result<(), Stop> {
        if v == V::I(0) {
            return Ok(());
        }
        if let V::F(_) = v {
            return Err(Stop::Bad("release of a code address".into()));
        }
        let (i, off) = self.obj(v, "release")?;
        if off != 8 {
            return Err(Stop::Bad(format!("release of an interior pointer (offset {off})")));
        }
        self.releases += 1;
        let o = &mut self.heap[i];
        o.rc -= 1;
        if o.rc > 0 {
            return Ok(());
        }
        if o.held > 0 {
            return Err(Stop::Bad(format!("object {i} released while {} live fields refer to it", o.held)));
        }
        // as compiled: the release function of the object's type, else the size at the call site
        if let Some(&(V::I(t), _)) = o.slots.get(&4) {
            let f = Symbol::from_dynamic(&format!("__tribute_release_{t}"));
            if self.funcs.contains_key(&f) {
                self.call(f, vec![v])?;
                if !self.heap[i].freed {
                    return Err(Stop::Bad(format!("the release function of type {t} did not give the object back")));
                }
                return Ok(());
            }
        }
        if size != 0 && size != self.heap[i].size {
            return Err(Stop::Bad(format!("object of {} bytes given back as {size} bytes", self.heap[i].size)));
        }
        self.free(i)
    }
    fn free(&mut self, i: usize) -> Result<(), Stop> {
        let o = &mut self.heap[i];
        o.freed = true;
        self.frees += 1;
        let kids: Vec<V> = o.slots.values().filter(|s| s.1).map(|s| s.0).collect();
        for k in &kids {
            if let V::P(j, _) = *k {
                self.heap[j].held -= 1;
            }
        }
        Ok(())
    }

    fn host(&mut self, name: &str, a: &[V]) -> Option<Result<V, Stop>> {
        let int = |v: &V| if let V::I(x) = v { *x } else { 0 };
        Some(Ok(match name {
            "__tribute_alloc" => {
                self.heap.push(Obj { size: int(&a[0]), rc: 0, freed: false, slots: BTreeMap::new(), held: 0 });
                V::P(self.heap.len() - 1, 0)
            }
            "__tribute_dealloc" => {
                let r = match self.obj(a[0], "dealloc") {
                    Err(e) => Err(e),
                    Ok((_, off)) if off != 0 => Err(Stop::Bad(format!("dealloc at offset {off}"))),
                    Ok((i, _)) if self.heap[i].size != int(&a[1]) => {
                        Err(Stop::Bad(format!("object of {} bytes given back as {} bytes", self.heap[i].size, int(&a[1]))))
                    }
                    Ok((i, _)) => self.free(i),
                };
                return Some(r.map(|_| V::U));
            }
            "__tribute_init" => V::U,
            "v_in_i32" => V::I(self.inputs[int(&a[0]) as usize & 15] as i32 as i64),
            "v_in_i1" => V::I((self.inputs[int(&a[0]) as usize & 15] & 1) as i64),
            "v_in_i64" => V::I(self.inputs[int(&a[0]) as usize & 15] as i64),
            "v_rec_i32" | "v_rec_i1" | "v_rec_i64" => {
                let x = int(&a[0]);
                let x = match name {
                    "v_rec_i32" => x as u32 as u64,
                    "v_rec_i1" => (x & 1) as u64,
                    _ => x as u64,
                };
                self.trace.push(format!("{name} {}:{x:x}", &name[6..]));
                V::U
            }
            "v_eff_i32" => {
                let x = int(&a[0]) as u32 as u64;
                self.trace.push(format!("v_eff_i32 i32:{x:x}"));
                V::I((x.wrapping_mul(2654435761).wrapping_add(12345)) as i32 as i64)
            }
            _ => return None,
        }))
    }

    fn call(&mut self, name: Symbol, args: Vec<V>) -> Result<Vec<V>, Stop> {
        self.depth += 1;
        if self.depth > 400 {
            return Err(Stop::Fuel);
        }
        let mut name = name;
        let mut args = args;
        let r = loop {
            if let Some(r) = self.host(sym_str(name), &args) {
                break r.map(|v| vec![v]);
            }
            let Some(&f) = self.funcs.get(&name) else {
                break Err(Stop::Unsupported(format!("call of {}", sym_str(name))));
            };
            if self.ctx.op(f).attributes.contains_key("abi") {
                break Err(Stop::Unsupported(format!("call of {}", sym_str(name))));
            }
            match self.body(f, args) {
                Ok(Flow::Ret(v)) => break Ok(v),
                Ok(Flow::Tail(V::F(n), a)) => {
                    name = n;
                    args = a;
                }
                Ok(Flow::Tail(v, _)) => break Err(Stop::Bad(format!("tail call through {v:?}"))),
                Err(e) => break Err(e),
            }
        };
        self.depth -= 1;
        r
    }

    fn body(&mut self, f: OpRef, args: Vec<V>) -> Result<Flow, Stop> {
        let ctx = self.ctx;
        let region = ctx.op(f).regions[0];
        let mut env: HashMap<ValueRef, V> = HashMap::new();
        let mut block = ctx.region(region).blocks[0];
        let mut args = args;
        'blocks: loop {
            for (p, a) in ctx.block_args(block).iter().zip(&args) {
                env.insert(*p, *a);
            }
            for &op in &ctx.block(block).ops {
                self.steps += 1;
                if self.steps > self.fuel {
                    return Err(Stop::Fuel);
                }
                let d = ctx.op(op);
                let v: Vec<V> = ctx.op_operands(op).iter().map(|o| env.get(o).copied().unwrap_or(V::U)).collect();
                let (dial, name) = (sym_str(d.dialect), sym_str(d.name));
                let mut out = None;
                match (dial, name) {
                    ("core", "unrealized_conversion_cast") => out = Some(v[0]),
                    ("tribute_rt", "retain") => {
                        self.retain(v[0])?;
                        out = Some(v[0]);
                    }
                    ("tribute_rt", "release") => self.release(v[0], int_attr(d.attributes.get("alloc_size")))?,
                    ("clif", "return") => return Ok(Flow::Ret(v)),
                    ("clif", "trap") => return Err(Stop::Trap),
                    ("clif", "jump") => {
                        block = d.successors[0];
                        args = v;
                        continue 'blocks;
                    }
                    ("clif", "brif") => {
                        let V::I(c) = v[0] else { return Err(Stop::Unsupported("brif on a pointer".into())) };
                        block = if c != 0 { d.successors[0] } else { d.successors[1] };
                        args = vec![];
                        continue 'blocks;
                    }
                    ("clif", "call") => {
                        let c = sym(d.attributes.get("callee"));
                        let r = self.call(c, v)?;
                        out = Some(r.first().copied().unwrap_or(V::U));
                    }
                    ("clif", "call_indirect") => {
                        let V::F(c) = v[0] else { return Err(Stop::Unsupported(format!("call through {:?}", v[0]))) };
                        let r = self.call(c, v[1..].to_vec())?;
                        out = Some(r.first().copied().unwrap_or(V::U));
                    }
                    ("clif", "return_call") => return Ok(Flow::Tail(V::F(sym(d.attributes.get("callee"))), v)),
                    ("clif", "return_call_indirect") => return Ok(Flow::Tail(v[0], v[1..].to_vec())),
                    ("clif", "symbol_addr") => out = Some(V::F(sym(d.attributes.get("sym")))),
                    ("clif", "iconst") => out = Some(V::I(int_attr(d.attributes.get("value")))),
                    ("clif", "load") => {
                        let off = int_attr(d.attributes.get("offset"));
                        let (i, o) = self.obj(v[0], "read")?;
                        let Some(s) = self.heap[i].slots.get(&(o + off)) else {
                            return Err(Stop::Bad(format!("read of a field that was never written (offset {})", o + off)));
                        };
                        out = Some(s.0);
                    }
                    ("clif", "store") => {
                        let off = int_attr(d.attributes.get("offset"));
                        let (i, o) = self.obj(v[1], "write")?;
                        let at = o + off;
                        if at == 0 {
                            let V::I(c) = v[0] else { return Err(Stop::Unsupported("count".into())) };
                            self.heap[i].rc = c;
                        } else {
                            if at >= self.heap[i].size {
                                return Err(Stop::Bad(format!("write at {at} in an object of {} bytes", self.heap[i].size)));
                            }
                            let own = self.owning.contains(&op);
                            if own {
                                if let V::P(j, _) = v[0] {
                                    self.heap[j].held += 1;
                                }
                            }
                            // an overwritten reference is dropped by nobody: its count stays
                            if let Some((V::P(j, _), true)) = self.heap[i].slots.insert(at, (v[0], own)) {
                                self.heap[j].held -= 1;
                            }
                        }
                    }
                    ("clif", "iadd" | "isub") => {
                        let sub = name == "isub";
                        out = Some(match (v[0], v[1]) {
                            (V::I(a), V::I(b)) => V::I(wrap(ctx, op, if sub { a.wrapping_sub(b) } else { a.wrapping_add(b) })),
                            (V::P(i, o), V::I(b)) => V::P(i, if sub { o - b } else { o + b }),
                            (V::F(s), V::I(0)) => V::F(s),
                            _ => return Err(Stop::Unsupported("pointer arithmetic".into())),
                        })
                    }
                    ("clif", "imul" | "band" | "bor" | "bxor") => {
                        let (V::I(a), V::I(b)) = (v[0], v[1]) else { return Err(Stop::Unsupported(name.into())) };
                        out = Some(V::I(wrap(
                            ctx,
                            op,
                            match name {
                                "imul" => a.wrapping_mul(b),
                                "band" => a & b,
                                "bor" => a | b,
                                _ => a ^ b,
                            },
                        )))
                    }
                    ("clif", "icmp") => {
                        let c = sym_str(sym(d.attributes.get("cond")));
                        let r = match (v[0], v[1]) {
                            (V::I(a), V::I(b)) => match c {
                                "eq" => a == b,
                                "ne" => a != b,
                                "slt" => a < b,
                                "sle" => a <= b,
                                "sgt" => a > b,
                                "sge" => a >= b,
                                _ => return Err(Stop::Unsupported(format!("icmp {c}"))),
                            },
                            (a, b) => match c {
                                "eq" => a == b,
                                "ne" => a != b,
                                _ => return Err(Stop::Unsupported(format!("icmp {c}"))),
                            },
                        };
                        out = Some(V::I(r as i64));
                    }
                    ("clif", "uextend" | "sextend" | "ireduce") if matches!(v[0], V::I(_)) => {
                        let V::I(a) = v[0] else { unreachable!() };
                        out = Some(V::I(wrap(ctx, op, a)));
                    }
                    _ => return Err(Stop::Unsupported(format!("{dial}.{name}"))),
                }
                if let (Some(x), Some(r)) = (out, ctx.op_results(op).first()) {
                    env.insert(*r, x);
                }
            }
            return Err(Stop::Bad("fell off a block".into()));
        }
    }
}

fn wrap(ctx: &IrContext, op: OpRef, x: i64) -> i64 {
    let t = ctx.types.get(ctx.value_ty(ctx.op_result(op, 0)));
    match sym_str(t.name) {
        "i32" => x as i32 as i64,
        "i8" => x as i8 as i64,
        "i16" => x as i16 as i64,
        _ => x,
    }
}
fn sym(a: Option<&Attribute>) -> Symbol {
    match a {
        Some(Attribute::Symbol(s)) => *s,
        _ => Symbol::new("?"),
    }
}
fn int_attr(a: Option<&Attribute>) -> i64 {
    match a {
        Some(Attribute::Int(i)) => *i as i64,
        _ => 0,
    }
}
