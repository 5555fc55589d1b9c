//! Reference interpreter over TrunkIR: the oracle for "the meaning of this module".
//! Deliberately written against the op names only; shares no code with any lowering.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use trunk_ir::types::Attribute;
use trunk_ir::{BlockRef, IrContext, OpRef, RegionRef, Symbol, TypeRef, ValueRef};

#[derive(Clone, Debug)]
pub enum V {
    Int(u64, u32),
    F32(u32),
    F64(u64),
    Nil,
    Null,
    Func(Symbol),
    Obj(Rc<Obj>),
    Str(Rc<Vec<u8>>),
}

#[derive(Debug)]
pub struct Obj {
    pub ty: String,
    pub tag: Option<Symbol>,
    pub fields: RefCell<Vec<V>>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Trap(&'static str),
    Fuel,
    /// The IR did something the interpreter has no meaning for (malformed IR).
    Bad(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub name: String,
    pub args: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Int(u32),
    F32,
    F64,
    Nil,
    Ref,
}

pub fn mask(x: u64, w: u32) -> u64 {
    if w >= 64 { x } else { x & ((1u64 << w) - 1) }
}
pub fn sext(x: u64, w: u32) -> i64 {
    if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) }
}

pub fn kind_of(ctx: &IrContext, ty: TypeRef) -> Kind {
    let d = ctx.types.get(ty);
    match (sym_str(d.dialect), sym_str(d.name)) {
        ("core", "i1") => Kind::Int(1),
        ("core", "i8") => Kind::Int(8),
        ("core", "i16") => Kind::Int(16),
        ("core", "i32") => Kind::Int(32),
        ("core", "i64") => Kind::Int(64),
        ("tribute_rt", "int") | ("tribute_rt", "nat") => Kind::Int(32),
        ("tribute_rt", "bool") => Kind::Int(1),
        ("core", "f32") => Kind::F32,
        ("core", "f64") | ("tribute_rt", "float") => Kind::F64,
        ("core", "nil") => Kind::Nil,
        _ => Kind::Ref,
    }
}

fn canon32(b: u32) -> u32 {
    if f32::from_bits(b).is_nan() { 0x7fc00000 } else { b }
}
fn canon64(b: u64) -> u64 {
    if f64::from_bits(b).is_nan() { 0x7ff8000000000000 } else { b }
}

impl V {
    pub fn show(&self) -> String {
        match self {
            V::Int(x, w) => format!("i{w}:{x:x}"),
            V::F32(b) => format!("f32:{:x}", canon32(*b)),
            V::F64(b) => format!("f64:{:x}", canon64(*b)),
            V::Nil => "nil".into(),
            V::Null => "null".into(),
            V::Func(s) => format!("fn:{s}"),
            V::Str(b) => format!("str:{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            V::Obj(o) => format!(
                "{}{}({})",
                o.ty,
                o.tag.map(|t| format!("::{t}")).unwrap_or_default(),
                o.fields.borrow().iter().map(|f| f.show()).collect::<Vec<_>>().join(",")
            ),
        }
    }
}

enum Flow {
    Next,
    Yield(Vec<V>),
    Return(Vec<V>),
    Break(Vec<V>),
    Continue(Vec<V>),
    Jump(BlockRef, Vec<V>),
    Tail(Symbol, Vec<V>),
}

/// per-operation facts, decoded once (attribute lookups take the global interner lock)
struct Dec {
    dn: &'static str,
    n: &'static str,
    rty: Option<Kind>,
    callee: Option<Symbol>,
    field: usize,
    tag: Option<Symbol>,
    tyname: String,
    pred: &'static str,
    hits: Cell<u64>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

pub struct Interp<'a> {
    stdin_at: usize,
    decoded: FxMap<OpRef, Rc<Dec>>,
    pub ctx: &'a IrContext,
    funcs: HashMap<Symbol, OpRef>,
    pub fuel: u64,
    pub trace: Vec<Event>,
    pub inputs: Vec<u64>,
    pub depth: u32,
    pub steps: u64,
    /// a trap happened in a side-effect-free op (division, float->int)
    pub pure_trap: Cell<bool>,
    /// the run did something whose result the IR leaves open (INT_MIN % -1)
    pub unspec: Cell<bool>,
}

thread_local! {
    static NAMES: RefCell<FxMap<Symbol, &'static str>> = RefCell::new(Default::default());
}
/// cached text of a symbol
pub fn sym_str(s: Symbol) -> &'static str {
    NAMES.with(|m| *m.borrow_mut().entry(s).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}

type Env = FxMap<ValueRef, V>;

impl<'a> Interp<'a> {
    pub fn new(ctx: &'a IrContext, module: OpRef, inputs: Vec<u64>, fuel: u64) -> Self {
        let mut funcs = HashMap::new();
        let mut mods = vec![module];
        while let Some(module) = mods.pop() {
        for &r in &ctx.op(module).regions {
            for &b in &ctx.region(r).blocks {
                for &op in &ctx.block(b).ops {
                    let d = ctx.op(op);
                    if d.dialect == Symbol::new("core") && d.name == Symbol::new("module") {
                        mods.push(op);
                    }
                    if d.dialect == Symbol::new("func")
                        && d.name == Symbol::new("func")
                        && let Some(n) = d.attributes.get_symbol("sym_name")
                    {
                        funcs.insert(n, op);
                    }
                }
            }
        }
        }
        Interp {
            stdin_at: 0,
            decoded: Default::default(),
            ctx,
            funcs,
            fuel,
            trace: vec![],
            inputs,
            depth: 0,
            steps: 0,
            pure_trap: Cell::new(false),
            unspec: Cell::new(false),
        }
    }

    pub fn has_func(&self, name: &str) -> bool {
        self.funcs.contains_key(&Symbol::from_dynamic(name))
    }

    /// the byte-string operations of the runtime
    fn bytes_op(&mut self, name: &str, a: &[V]) -> Option<Result<Vec<V>, Stop>> {
        let b = |v: &V| match v {
            V::Str(b) => Ok(b.clone()),
            o => Err(Stop::Bad(format!("{name} on {}", o.show()))),
        };
        let n = |v: &V| match v {
            V::Int(x, 32) => Ok(*x as usize),
            o => Err(Stop::Bad(format!("{name} on {}", o.show()))),
        };
        let r = || -> Result<V, Stop> {
            Ok(match name {
                "__tribute_bytes_len" => V::Int(b(&a[0])?.len() as u64, 32),
                "__tribute_bytes_concat" => V::Str(Rc::new([&b(&a[0])?[..], &b(&a[1])?[..]].concat())),
                "__tribute_bytes_slice_or_panic" => {
                    let (x, s, e) = (b(&a[0])?, n(&a[1])?, n(&a[2])?);
                    V::Str(Rc::new(x.get(s..e).ok_or(Stop::Trap("bounds"))?.to_vec()))
                }
                "__bytes_get_or_panic" => {
                    V::Int(*b(&a[0])?.get(n(&a[1])?).ok_or(Stop::Trap("bounds"))? as u64, 32)
                }
                "__tribute_bytes_range_equal" => {
                    let (x, i, y, j, l) = (b(&a[0])?, n(&a[1])?, b(&a[2])?, n(&a[3])?, n(&a[4])?);
                    let eq = match (x.get(i..i + l), y.get(j..j + l)) {
                        (Some(p), Some(q)) => p == q,
                        _ => false,
                    };
                    V::Int(eq as u64, 1)
                }
                _ => unreachable!(),
            })
        };
        Some(r().map(|v| vec![v]))
    }

    fn io_op(&mut self, name: &str, a: &[V]) -> Result<Vec<V>, Stop> {
        if name == "std::io::__tribute_io_write" {
            let (V::Str(b), V::Int(nl, 1)) = (&a[0], &a[1]) else { return Err(Stop::Bad("io_write arguments".into())) };
            let mut b = b.to_vec();
            if *nl == 1 {
                b.push(b'\n');
            }
            push_out(&mut self.trace, &b.iter().map(|x| format!("{x:02x}")).collect::<String>());
            return Ok(vec![V::Nil]);
        }
        let (data, fails) = stdin_of(&self.inputs);
        let at = self.stdin_at;
        let rest = &data[at..];
        let make = |tag: &'static str, f: Vec<V>| {
            Ok(vec![V::Obj(Rc::new(Obj { ty: "std::io::ReadLineResult".into(), tag: Some(Symbol::new(tag)), fields: RefCell::new(f) }))])
        };
        let line = match rest.iter().position(|b| *b == b'\n') {
            Some(n) => {
                self.stdin_at = at + n + 1;
                let l = &rest[..n];
                l.strip_suffix(b"\r").unwrap_or(l)
            }
            None => {
                self.stdin_at = data.len();
                if fails {
                    return make("ReadSystem", vec![V::Int(5, 32), V::Str(Rc::new(b"stdin read failed".to_vec()))]);
                }
                if rest.is_empty() {
                    return make("ReadEndOfFile", vec![]);
                }
                rest
            }
        };
        if std::str::from_utf8(line).is_err() {
            return make("ReadInvalidEncoding", vec![]);
        }
        make("ReadLine", vec![V::Str(Rc::new(line.to_vec()))])
    }

    fn host(&mut self, name: &str, args: &[V]) -> Option<Result<Vec<V>, Stop>> {
        if name.starts_with("std::io::__tribute_io_") {
            return Some(self.io_op(name, args));
        }
        if name.starts_with("__tribute_bytes_") || name == "__bytes_get_or_panic" {
            return self.bytes_op(name, args);
        }
        let rest = name.strip_prefix("v_")?;
        let (fun, ty) = rest.split_once('_')?;
        let r = match fun {
            "in" => {
                let V::Int(k, _) = args[0] else { return Some(Err(Stop::Bad("v_in arg".into()))) };
                let raw = self.inputs[(k as usize) % self.inputs.len()];
                Ok(vec![host_input(ty, raw)])
            }
            "rec" => {
                self.trace.push(Event { name: name.into(), args: args.iter().map(|a| a.show()).collect() });
                Ok(vec![V::Nil])
            }
            "eff" => {
                self.trace.push(Event { name: name.into(), args: args.iter().map(|a| a.show()).collect() });
                let V::Int(x, _) = args[0] else { return Some(Err(Stop::Bad("v_eff arg".into()))) };
                let w = if ty == "i64" { 64 } else { 32 };
                Ok(vec![V::Int(mask(x.wrapping_mul(2654435761).wrapping_add(12345), w), w)])
            }
            _ => return None,
        };
        Some(r)
    }

    pub fn call(&mut self, name: Symbol, args: Vec<V>) -> Result<Vec<V>, Stop> {
        let (mut name, mut args) = (name, args);
        self.depth += 1;
        if self.depth > 4000 {
            return Err(Stop::Fuel);
        }
        let r = loop {
            let s = sym_str(name);
            if let Some(r) = self.host(s, &args) {
                break r;
            }
            let Some(&f) = self.funcs.get(&name) else {
                break Err(Stop::Bad(format!("call of undefined function @{s}")));
            };
            let Some(&region) = self.ctx.op(f).regions.first() else {
                break Err(Stop::Bad(format!("call of bodyless function @{s}")));
            };
            let mut env = Env::default();
            match self.run_region(region, args, &mut env) {
                Ok(Flow::Return(v)) => break Ok(v),
                Ok(Flow::Tail(n, a)) => {
                    name = n;
                    args = a;
                }
                Ok(_) => break Err(Stop::Bad(format!("function @{s} ended without return"))),
                Err(e) => break Err(e),
            }
        };
        self.depth -= 1;
        r
    }

    fn run_region(&mut self, region: RegionRef, args: Vec<V>, env: &mut Env) -> Result<Flow, Stop> {
        let Some(&b0) = self.ctx.region(region).blocks.first() else {
            return Err(Stop::Bad("empty region".into()));
        };
        let (mut block, mut args) = (b0, args);
        loop {
            let ba = self.ctx.block_args(block);
            if ba.len() != args.len() {
                return Err(Stop::Bad(format!(
                    "block takes {} arguments, got {}",
                    ba.len(),
                    args.len()
                )));
            }
            for (v, a) in ba.iter().zip(args) {
                env.insert(*v, a);
            }
            let ops = self.ctx.block(block).ops.clone();
            let mut next = None;
            for op in ops.iter().copied() {
                match self.exec(op, env)? {
                    Flow::Next => {}
                    Flow::Jump(b, a) => {
                        next = Some((b, a));
                        break;
                    }
                    other => return Ok(other),
                }
            }
            match next {
                Some((b, a)) => {
                    if self.ctx.block(b).parent_region != Some(region) {
                        return Err(Stop::Bad("branch to a block outside its region".into()));
                    }
                    block = b;
                    args = a;
                }
                None => return Err(Stop::Bad("block fell off its end".into())),
            }
        }
    }

    fn dec(&mut self, op: OpRef) -> Rc<Dec> {
        if let Some(d) = self.decoded.get(&op) {
            d.hits.set(d.hits.get() + 1);
            return d.clone();
        }
        let ctx = self.ctx;
        let d = ctx.op(op);
        let at = &d.attributes;
        let x = Rc::new(Dec {
            dn: sym_str(d.dialect),
            n: sym_str(d.name),
            rty: ctx.op_result_types(op).first().map(|t| kind_of(ctx, *t)),
            callee: at.get_symbol("callee").or(at.get_symbol("func_ref")),
            field: at.get_u32("field").ok().flatten().unwrap_or(0) as usize,
            tag: at.get_symbol("tag"),
            tyname: at
                .get_type("type")
                .and_then(|t| ctx.types.get(t).attrs.get_symbol("name"))
                .map(|s| s.to_string())
                .unwrap_or_default(),
            pred: at.get_symbol("predicate").map(sym_str).unwrap_or(""),
            hits: Cell::new(1),
        });
        self.decoded.insert(op, x.clone());
        x
    }

    fn exec(&mut self, op: OpRef, env: &mut Env) -> Result<Flow, Stop> {
        self.steps += 1;
        if self.steps > self.fuel {
            return Err(Stop::Fuel);
        }
        let ctx = self.ctx;
        let d = ctx.op(op);
        let dec = self.dec(op);
        let mut a = Vec::with_capacity(4);
        for v in ctx.op_operands(op) {
            match env.get(v) {
                Some(x) => a.push(x.clone()),
                None => return Err(Stop::Bad(format!("{}.{} uses undefined {v:?}", d.dialect, d.name))),
            }
        }
        let (dn, n, rty) = (dec.dn, dec.n, dec.rty);
        let set = |env: &mut Env, vals: Vec<V>| -> Result<Flow, Stop> {
            let rs = ctx.op_results(op);
            if rs.len() > vals.len() {
                return Err(Stop::Bad(format!("{}.{}: {} results, {} values", d.dialect, d.name, rs.len(), vals.len())));
            }
            for (r, v) in rs.iter().zip(vals) {
                env.insert(*r, v);
            }
            Ok(Flow::Next)
        };
        match (dn, n) {
            ("arith", _) => {
                let v = self.arith(op, &dec, &a, rty.unwrap_or(Kind::Nil))?;
                set(env, vec![v])
            }
            ("core", "unrealized_conversion_cast") => {
                let v = cast_repr(a[0].clone(), rty.unwrap_or(Kind::Ref))?;
                set(env, vec![v])
            }
            ("tribute_rt", s) if s.starts_with("box_") => set(env, vec![a[0].clone()]),
            ("tribute_rt", s) if s.starts_with("unbox_") => {
                let v = cast_repr(a[0].clone(), rty.unwrap_or(Kind::Ref))?;
                set(env, vec![v])
            }
            ("func", "return") => Ok(Flow::Return(a)),
            ("func", "unreachable") => Err(Stop::Trap("unreachable")),
            ("func", "constant") => {
                let s = dec.callee.ok_or(Stop::Bad("func_ref".into()))?;
                if !self.funcs.contains_key(&s) {
                    return Err(Stop::Bad(format!("func.constant of missing @{s}")));
                }
                set(env, vec![V::Func(s)])
            }
            ("func", "call") => {
                let s = dec.callee.ok_or(Stop::Bad("callee".into()))?;
                let r = self.call(s, a)?;
                set(env, r)
            }
            ("func", "tail_call") => {
                let s = dec.callee.ok_or(Stop::Bad("callee".into()))?;
                Ok(Flow::Tail(s, a))
            }
            ("func", "call_indirect") => {
                let V::Func(s) = a[0] else { return Err(Stop::Bad("call_indirect of non-function".into())) };
                let r = self.call(s, a[1..].to_vec())?;
                set(env, r)
            }
            ("func", "tail_call_indirect") => {
                let V::Func(s) = a[0] else { return Err(Stop::Bad("call_indirect of non-function".into())) };
                Ok(Flow::Tail(s, a[1..].to_vec()))
            }
            ("cf", "br") => {
                let b = *d.successors.first().ok_or(Stop::Bad("cf.br successor".into()))?;
                Ok(Flow::Jump(b, a))
            }
            ("cf", "cond_br") => {
                let c = truth(&a[0])?;
                if d.successors.len() != 2 {
                    return Err(Stop::Bad("cf.cond_br successors".into()));
                }
                Ok(Flow::Jump(d.successors[if c { 0 } else { 1 }], vec![]))
            }
            ("scf", "yield") => Ok(Flow::Yield(a)),
            ("scf", "break") => Ok(Flow::Break(a)),
            ("scf", "continue") => Ok(Flow::Continue(a)),
            ("scf", "if") => {
                let c = truth(&a[0])?;
                if d.regions.len() != 2 {
                    return Err(Stop::Bad("scf.if regions".into()));
                }
                let r = d.regions[if c { 0 } else { 1 }];
                match self.run_region(r, vec![], env)? {
                    Flow::Yield(v) => set(env, v),
                    f => Ok(f),
                }
            }
            ("scf", "loop") => {
                let mut cur = a;
                let body = d.regions[0];
                loop {
                    match self.run_region(body, cur, env)? {
                        Flow::Continue(v) => cur = v,
                        Flow::Break(v) => return set(env, v),
                        f @ (Flow::Return(_) | Flow::Tail(..)) => return Ok(f),
                        _ => return Err(Stop::Bad("scf.loop body fell through".into())),
                    }
                }
            }
            ("scf", "switch") => {
                let V::Int(x, w) = a[0] else { return Err(Stop::Bad("switch on non-int".into())) };
                let body = ctx.region(d.regions[0]).blocks[0];
                let mut default = None;
                let mut hit = None;
                for &c in &ctx.block(body).ops {
                    let cd = ctx.op(c);
                    if cd.name == Symbol::new("case") && hit.is_none() {
                        let v = match cd.attributes.get("value") {
                            Some(Attribute::Int(v)) => mask(*v as u64, w),
                            Some(Attribute::Bool(b)) => *b as u64,
                            o => return Err(Stop::Bad(format!("case value {o:?}"))),
                        };
                        if v == x {
                            hit = Some(cd.regions[0]);
                        }
                    } else if cd.name == Symbol::new("default") {
                        default = Some(cd.regions[0]);
                    }
                }
                let Some(r) = hit.or(default) else { return set(env, vec![]) };
                match self.run_region(r, vec![], env)? {
                    Flow::Yield(v) => set(env, v),
                    f => Ok(f),
                }
            }
            ("adt", _) => self.adt(op, &dec, a, env),
            _ => Err(Stop::Bad(format!("op {dn}.{n} has no reference meaning"))),
        }
    }

    fn adt(&mut self, op: OpRef, dec: &Dec, a: Vec<V>, env: &mut Env) -> Result<Flow, Stop> {
        let ctx = self.ctx;
        let (n, rty) = (dec.n, dec.rty);
        let tyname = || dec.tyname.clone();
        let obj = |v: &V| -> Result<Rc<Obj>, Stop> {
            match v {
                V::Obj(o) => Ok(o.clone()),
                V::Null => Err(Stop::Trap("null")),
                o => Err(Stop::Bad(format!("{n} on {}", o.show()))),
            }
        };
        let put = |env: &mut Env, v: V| -> Result<Flow, Stop> {
            env.insert(ctx.op_result(op, 0), v);
            Ok(Flow::Next)
        };
        let field = || dec.field;
        match n {
            "struct_new" => {
                let o = Obj { ty: tyname(), tag: None, fields: RefCell::new(a) };
                put(env, V::Obj(Rc::new(o)))
            }
            "variant_new" => {
                let o = Obj { ty: tyname(), tag: dec.tag, fields: RefCell::new(a) };
                put(env, V::Obj(Rc::new(o)))
            }
            "struct_get" | "variant_get" => {
                let o = obj(&a[0])?;
                if n == "variant_get" && o.tag != dec.tag {
                    return Err(Stop::Bad("variant_get of another variant".into()));
                }
                if o.ty != tyname() {
                    return Err(Stop::Bad(format!("{n}: object is {}, expected {}", o.ty, tyname())));
                }
                let f = o.fields.borrow().get(field()).cloned().ok_or(Stop::Bad("field index".into()))?;
                put(env, cast_repr(f, rty.unwrap_or(Kind::Ref))?)
            }
            "struct_set" => {
                let o = obj(&a[0])?;
                let i = field();
                if i >= o.fields.borrow().len() {
                    return Err(Stop::Bad("field index".into()));
                }
                o.fields.borrow_mut()[i] = a[1].clone();
                Ok(Flow::Next)
            }
            "variant_is" => {
                let o = obj(&a[0])?;
                put(env, V::Int((o.tag == dec.tag) as u64, 1))
            }
            "variant_cast" | "ref_cast" => put(env, a[0].clone()),
            "bytes_const" => match ctx.op(op).attributes.get("value") {
                Some(Attribute::Bytes(b)) => put(env, V::Str(Rc::new(b.to_vec()))),
                o => Err(Stop::Bad(format!("bytes_const of {o:?}"))),
            },
            "string_const" => {
                let Some(s) = ctx.op(op).attributes.get_str("value") else {
                    return Err(Stop::Bad("string_const".into()));
                };
                let leaf = V::Str(Rc::new(s.as_bytes().to_vec()));
                let o = Obj { ty: "String".into(), tag: Some(Symbol::new("Leaf")), fields: RefCell::new(vec![leaf]) };
                put(env, V::Obj(Rc::new(o)))
            }
            "ref_null" => put(env, V::Null),
            "ref_is_null" => put(env, V::Int(matches!(a[0], V::Null) as u64, 1)),
            _ => Err(Stop::Bad(format!("op adt.{n} has no reference meaning"))),
        }
    }

    fn arith(&self, op: OpRef, dec: &Dec, a: &[V], k: Kind) -> Result<V, Stop> {
        let n = dec.n;
        let ctx = self.ctx;
        let d = ctx.op(op);
        let bad = |m: &str| Stop::Bad(format!("arith.{n}: {m}"));
        let ints = |a: &[V]| -> Result<(u64, u64, u32), Stop> {
            match (&a[0], &a[1]) {
                (V::Int(x, w), V::Int(y, w2)) if w == w2 => Ok((*x, *y, *w)),
                (x, y) => Err(bad(&format!("operands {} {}", x.show(), y.show()))),
            }
        };
        match n {
            "const" => {
                let v = d.attributes.get("value").ok_or(bad("value"))?;
                Ok(match (v, k) {
                    (Attribute::Int(v), Kind::Int(w)) => V::Int(mask(*v as u64, w), w),
                    (Attribute::Bool(b), Kind::Int(w)) => V::Int(*b as u64, w),
                    (Attribute::FloatBits(b), Kind::F64) => V::F64(*b),
                    (Attribute::FloatBits(b), Kind::F32) => V::F32(*b as u32),
                    (_, Kind::Nil) => V::Nil,
                    (Attribute::Int(0), Kind::Ref) => V::Null,
                    (v, k) => return Err(bad(&format!("{v:?} as {k:?}"))),
                })
            }
            "addi" | "subi" | "muli" | "and" | "or" | "xor" | "shl" | "shr" | "shru" | "divsi" | "divui" | "remsi"
            | "remui" => {
                let (x, y, w) = ints(a)?;
                if Kind::Int(w) != k {
                    return Err(bad("result width"));
                }
                let (sx, sy) = (sext(x, w), sext(y, w));
                let min = sext(1u64 << (w - 1), w);
                let r = match n {
                    "addi" => x.wrapping_add(y),
                    "subi" => x.wrapping_sub(y),
                    "muli" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    "shl" => x << (y % w as u64),
                    "shru" => x >> (y % w as u64),
                    "shr" => (sx >> (y % w as u64)) as u64,
                    "divsi" | "remsi" => {
                        if y == 0 || (sx == min && sy == -1 && n == "divsi") {
                            self.pure_trap.set(true);
                            return Err(Stop::Trap("div"));
                        }
                        if sx == min && sy == -1 {
                            self.unspec.set(true);
                        }
                        if n == "divsi" { sx.wrapping_div(sy) as u64 } else { sx.wrapping_rem(sy) as u64 }
                    }
                    _ => {
                        if y == 0 {
                            self.pure_trap.set(true);
                            return Err(Stop::Trap("div"));
                        }
                        if n == "divui" { x / y } else { x % y }
                    }
                };
                Ok(V::Int(mask(r, w), w))
            }
            "negi" => match &a[0] {
                V::Int(x, w) => Ok(V::Int(mask(x.wrapping_neg(), *w), *w)),
                _ => Err(bad("operand")),
            },
            "negf" => match &a[0] {
                V::F32(x) => Ok(V::F32(x ^ 0x80000000)),
                V::F64(x) => Ok(V::F64(x ^ (1 << 63))),
                _ => Err(bad("operand")),
            },
            "addf" | "subf" | "mulf" | "divf" => match (&a[0], &a[1]) {
                (V::F32(x), V::F32(y)) => {
                    let (x, y) = (f32::from_bits(*x), f32::from_bits(*y));
                    let r = match n {
                        "addf" => x + y,
                        "subf" => x - y,
                        "mulf" => x * y,
                        _ => x / y,
                    };
                    Ok(V::F32(r.to_bits()))
                }
                (V::F64(x), V::F64(y)) => {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    let r = match n {
                        "addf" => x + y,
                        "subf" => x - y,
                        "mulf" => x * y,
                        _ => x / y,
                    };
                    Ok(V::F64(r.to_bits()))
                }
                _ => Err(bad("operands")),
            },
            "cmpi" => {
                let (x, y, w) = ints(a)?;
                let (sx, sy) = (sext(x, w), sext(y, w));
                let r = match dec.pred {
                    "eq" => x == y,
                    "ne" => x != y,
                    "slt" => sx < sy,
                    "sle" => sx <= sy,
                    "sgt" => sx > sy,
                    "sge" => sx >= sy,
                    "ult" => x < y,
                    "ule" => x <= y,
                    "ugt" => x > y,
                    "uge" => x >= y,
                    _ => return Err(bad("predicate")),
                };
                let Kind::Int(w) = k else { return Err(bad("result type")) };
                Ok(V::Int(r as u64, w))
            }
            "cmpf" => {
                let (x, y) = match (&a[0], &a[1]) {
                    (V::F32(x), V::F32(y)) => (f32::from_bits(*x) as f64, f32::from_bits(*y) as f64),
                    (V::F64(x), V::F64(y)) => (f64::from_bits(*x), f64::from_bits(*y)),
                    _ => return Err(bad("operands")),
                };
                let r = match dec.pred {
                    "oeq" => x == y,
                    "une" => x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    _ => return Err(bad("predicate")),
                };
                let Kind::Int(w) = k else { return Err(bad("result type")) };
                Ok(V::Int(r as u64, w))
            }
            "cast" | "extend" | "trunc" | "convert" => {
                let src_unsigned = {
                    let t = ctx.types.get(ctx.value_ty(ctx.op_operands(op)[0]));
                    let n = sym_str(t.name);
                    t.dialect == Symbol::new("tribute_rt") && (n == "nat" || n == "bool")
                };
                Ok(match (&a[0], k) {
                    (V::Int(x, w), Kind::Int(w2)) => {
                        V::Int(if src_unsigned { mask(*x, w2) } else { mask(sext(*x, *w) as u64, w2) }, w2)
                    }
                    (V::Int(x, w), Kind::F64) => {
                        V::F64(if src_unsigned { (*x as f64).to_bits() } else { (sext(*x, *w) as f64).to_bits() })
                    }
                    (V::Int(x, w), Kind::F32) => {
                        V::F32(if src_unsigned { (*x as f32).to_bits() } else { (sext(*x, *w) as f32).to_bits() })
                    }
                    (V::F32(b), Kind::F64) => V::F64((f32::from_bits(*b) as f64).to_bits()),
                    (V::F64(b), Kind::F32) => V::F32((f64::from_bits(*b) as f32).to_bits()),
                    (V::F32(b), Kind::F32) => V::F32(*b),
                    (V::F64(b), Kind::F64) => V::F64(*b),
                    (V::F32(_) | V::F64(_), Kind::Int(w)) => {
                        let x = match a[0] {
                            V::F32(b) => f32::from_bits(b) as f64,
                            V::F64(b) => f64::from_bits(b),
                            _ => unreachable!(),
                        };
                        let t = x.trunc();
                        let lim = 2f64.powi(w as i32 - 1);
                        if x.is_nan() || t < -lim || t >= lim {
                            self.pure_trap.set(true);
                            return Err(Stop::Trap("fptoint"));
                        }
                        V::Int(mask(t as i64 as u64, w), w)
                    }
                    (v, k) => return Err(bad(&format!("{} to {k:?}", v.show()))),
                })
            }
            _ => Err(Stop::Bad(format!("op arith.{n} has no reference meaning"))),
        }
    }
}

fn truth(v: &V) -> Result<bool, Stop> {
    match v {
        V::Int(x, _) => Ok(*x != 0),
        o => Err(Stop::Bad(format!("condition {}", o.show()))),
    }
}

/// Representation cast at an unrealized cast / field read: reference<->value is transparent.
fn cast_repr(v: V, k: Kind) -> Result<V, Stop> {
    match (&v, k) {
        (_, Kind::Ref) => Ok(v),
        (V::Int(_, w), Kind::Int(w2)) if *w == w2 => Ok(v),
        (V::Int(x, _), Kind::Int(w2)) if *x <= 1 => Ok(V::Int(*x, w2)), // i1 <-> i32 carrier
        (V::F32(_), Kind::F32) | (V::F64(_), Kind::F64) => Ok(v),
        (_, Kind::Nil) => Ok(V::Nil),
        (V::Func(_), Kind::Int(_)) => Ok(v), // closure code pointer carried as core.i32
        _ => Err(Stop::Bad(format!("cast of {} to {k:?}", v.show()))),
    }
}

pub fn host_input(ty: &str, raw: u64) -> V {
    match ty {
        "i1" => V::Int(raw & 1, 1),
        "i8" => V::Int(mask(raw, 8), 8),
        "i16" => V::Int(mask(raw, 16), 16),
        "i32" => V::Int(mask(raw, 32), 32),
        "i64" => V::Int(raw, 64),
        "f32" => V::F32(raw as u32),
        "f64" => V::F64(raw),
        _ => V::Nil,
    }
}

/// What one execution of `@main` showed to the outside.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Observed {
    pub events: Vec<Event>,
    pub end: String,
}

pub struct RunInfo {
    pub obs: Observed,
    pub steps: u64,
    pub pure_trap: bool,
    pub unspec: bool,
    pub ops: HashMap<String, u64>,
    pub stop: Option<Stop>,
}

/// Bytes written to standard output, adjacent writes being one event.
pub fn push_out(trace: &mut Vec<Event>, hex: &str) {
    if hex.is_empty() {
        return;
    }
    match trace.last_mut() {
        Some(e) if e.name == "out" => e.args[0].push_str(hex),
        _ => trace.push(Event { name: "out".into(), args: vec![hex.into()] }),
    }
}

/// Standard input of a run, and whether reading past its end is an I/O error rather than end of file.
pub fn stdin_of(inputs: &[u64]) -> (Vec<u8>, bool) {
    let mut r = crate::rng::Rng::new(inputs.iter().fold(7, |h: u64, x| (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23)));
    let mut d = vec![];
    for _ in 0..r.below(7) {
        match r.below(9) {
            0 => d.extend_from_slice(b"\n"),
            1 => d.extend_from_slice(b"\r\n"),
            2 => d.extend_from_slice("h\u{e9}llo \u{1f600}\n".as_bytes()),
            3 => d.extend_from_slice(b"a\rb\r\r\n"),
            4 => d.extend_from_slice(b"\xff\xfe\n"),
            5 => d.extend_from_slice(b"\xf0\x9f\x98"),
            6 if r.chance(30) => {
                let n = 8192 - 2 + r.below(5);
                d.extend((0..n).map(|i| b'a' + (i % 23) as u8));
            }
            7 => d.extend_from_slice(b"tail"),
            _ => d.extend_from_slice(b"line\n"),
        }
    }
    (d, r.chance(25))
}

pub fn run_main(ctx: &IrContext, module: OpRef, entry: &str, inputs: &[u64], fuel: u64) -> RunInfo {
    let mut it = Interp::new(ctx, module, inputs.to_vec(), fuel);
    let r = it.call(Symbol::from_dynamic(entry), vec![]);
    let (end, stop) = match r {
        Ok(v) => (format!("return({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")), None),
        Err(Stop::Trap(t)) => (format!("trap({t})"), Some(Stop::Trap(t))),
        Err(e) => (format!("{e:?}"), Some(e)),
    };
    let mut ops = HashMap::new();
    for d in it.decoded.values() {
        *ops.entry(format!("{}.{}", d.dn, d.n)).or_insert(0) += d.hits.get();
    }
    RunInfo {
        obs: Observed { events: it.trace, end },
        steps: it.steps,
        pure_trap: it.pure_trap.get(),
        unspec: it.unspec.get(),
        ops,
        stop,
    }
}
