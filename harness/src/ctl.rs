//! Source-level control programs: direct semantics of handlers and resumptions on a machine
//! with an explicit stack, the `tribute_control` form of a program, and an evaluator for the
//! continuation-passing form the compiler makes of it.
use crate::eff::{Conv, E, H, Prog, T};
use crate::interp::Event;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

const MASK: i32 = 0xffff;

fn record(events: &mut Vec<Event>, t: &str, s: String) {
    events.push(Event { name: format!("v_rec_{t}"), args: vec![format!("{t}:{s}")] });
}

fn bits(f: f64) -> String {
    if f.is_nan() { "7ff8000000000000".into() } else { format!("{:x}", f.to_bits()) }
}

// ---------------------------------------------------------------------------
// reference: a stack machine

#[derive(Clone)]
enum V<'p> {
    I(i32),
    F(f64),
    B(bool),
    N,
    C(Rc<(&'p [usize], &'p E, Env<'p>)>),
}

#[derive(Clone)]
struct Bind<'p>(usize, V<'p>, Option<Rc<Bind<'p>>>);

#[derive(Clone)]
struct Resumption<'p> {
    frames: Rc<Vec<Fr<'p>>>,
    base: Stack<'p>,
}

#[derive(Clone, Default)]
struct Env<'p> {
    vars: Option<Rc<Bind<'p>>>,
    resume: Option<Rc<Resumption<'p>>>,
}

impl<'p> Env<'p> {
    fn bind(&self, v: usize, x: V<'p>) -> Env<'p> {
        Env { vars: Some(Rc::new(Bind(v, x, self.vars.clone()))), resume: self.resume.clone() }
    }
    fn get(&self, v: usize) -> V<'p> {
        let mut b = self.vars.as_ref();
        while let Some(x) = b {
            if x.0 == v {
                return x.1.clone();
            }
            b = x.2.as_ref();
        }
        panic!("harness: variable {v} not in scope")
    }
}

/// handlers in force, innermost first
type Link<'p> = (Handler<'p>, Ev2<'p>);
#[derive(Clone)]
struct Ev2<'p>(Option<Rc<Link<'p>>>);

#[derive(Clone)]
struct Handler<'p> {
    h: &'p H,
    env: Env<'p>,
    id: u64,
}

impl<'p> Ev2<'p> {
    fn find(&self, a: usize) -> Option<Handler<'p>> {
        let mut e = self;
        while let Some(x) = &e.0 {
            if x.0.h.abilities.contains(&a) {
                return Some(x.0.clone());
            }
            e = &x.1;
        }
        None
    }
}

#[derive(Clone)]
enum Fr<'p> {
    Let(usize, &'p E, Env<'p>, Ev2<'p>),
    /// operands of a node, evaluated left to right
    Args(&'p E, Vec<V<'p>>, Env<'p>, Ev2<'p>),
    Hnd(Handler<'p>, Ev2<'p>),
    /// the caller continues here
    Ret,
    /// the arm that resumed has more to do
    Splice,
    /// a completion or an arm is running
    End,
}

type Stack<'p> = Option<Rc<Node<'p>>>;
struct Node<'p>(Fr<'p>, Stack<'p>);

fn push<'p>(s: &mut Stack<'p>, f: Fr<'p>) {
    *s = Some(Rc::new(Node(f, s.clone())));
}

#[derive(Default)]
pub struct Seen {
    pub performs: u64,
    pub fn_ops: u64,
    pub handles: u64,
    pub resumes: u64,
    pub escapes: u64,
    pub used: u64,
}

pub struct Out {
    pub events: Vec<Event>,
    pub seen: Seen,
}

fn kids(e: &E) -> Vec<&E> {
    match e {
        E::Bin(_, a, b, _) | E::Lt(a, b) => vec![a, b],
        E::Rec(a, _) | E::Resume(a, _) => vec![a],
        E::If(c, ..) => vec![c],
        E::Perform(_, v) | E::FnOp(_, v) | E::Call(_, v) | E::CallC(_, _, v) => v.iter().collect(),
        _ => vec![],
    }
}

enum St<'p> {
    Eval(&'p E, Env<'p>, Ev2<'p>),
    Give(V<'p>),
}

/// Runs the program. `Err` names what puts it outside the domain of the comparison.
pub fn reference(p: &Prog, inputs: &[u64]) -> Result<Out, &'static str> {
    let mut events = vec![];
    let mut seen = Seen::default();
    let mut stack: Stack = None;
    let mut ids = 0;
    let mut st = St::Eval(p.main.as_ref().unwrap(), Env::default(), Ev2(None));
    for _ in 0..60_000 {
        st = match st {
            St::Eval(e, env, ev) => match e {
                E::Int(i) => St::Give(V::I(*i as i32)),
                E::Flt(f) => St::Give(V::F(*f)),
                E::Bool(b) => St::Give(V::B(*b)),
                E::Nil => St::Give(V::N),
                E::Var(v, _) => St::Give(env.get(*v)),
                E::In(k) => St::Give(V::I(inputs[*k as usize & 15] as i32 & MASK)),
                E::Lam(_, ps, b) => St::Give(V::C(Rc::new((ps, b, env)))),
                E::Let(v, _, a, b) => {
                    push(&mut stack, Fr::Let(*v, b, env.clone(), ev.clone()));
                    St::Eval(a, env, ev)
                }
                E::Handle(h) | E::HandleSrc(h) => {
                    ids += 1;
                    seen.handles += 1;
                    let hd = Handler { h, env: env.clone(), id: ids };
                    push(&mut stack, Fr::Hnd(hd.clone(), ev.clone()));
                    St::Eval(&h.body, env, Ev2(Some(Rc::new((hd, ev)))))
                }
                _ => {
                    let ks = kids(e);
                    push(&mut stack, Fr::Args(e, vec![], env.clone(), ev.clone()));
                    match ks.first() {
                        Some(k) => St::Eval(k, env, ev),
                        // nothing to evaluate: deliver a value that is not counted
                        None => {
                            let Some(n) = stack.take() else { unreachable!() };
                            stack = n.1.clone();
                            apply(p, e, vec![], env, ev, &mut stack, &mut events, &mut seen)?
                        }
                    }
                }
            },
            St::Give(v) => {
                let Some(n) = stack.take() else { return Ok(Out { events, seen }) };
                stack = n.1.clone();
                match &n.0 {
                    Fr::Let(x, b, env, ev) => St::Eval(b, env.bind(*x, v), ev.clone()),
                    Fr::Ret | Fr::Splice | Fr::End => St::Give(v),
                    Fr::Hnd(h, ev) => {
                        push(&mut stack, Fr::End);
                        St::Eval(&h.h.dob, h.env.bind(h.h.dov, v), ev.clone())
                    }
                    Fr::Args(e, vals, env, ev) => {
                        let mut vals = vals.clone();
                        vals.push(v);
                        let ks = kids(e);
                        if vals.len() < ks.len() {
                            let k = ks[vals.len()];
                            push(&mut stack, Fr::Args(e, vals, env.clone(), ev.clone()));
                            St::Eval(k, env.clone(), ev.clone())
                        } else {
                            apply(p, e, vals, env.clone(), ev.clone(), &mut stack, &mut events, &mut seen)?
                        }
                    }
                }
            }
        };
    }
    Err("reference evaluation too long")
}

#[allow(clippy::too_many_arguments)]
fn apply<'p>(
    p: &'p Prog,
    e: &'p E,
    vals: Vec<V<'p>>,
    env: Env<'p>,
    ev: Ev2<'p>,
    stack: &mut Stack<'p>,
    events: &mut Vec<Event>,
    seen: &mut Seen,
) -> Result<St<'p>, &'static str> {
    Ok(match e {
        E::Bin(o, ..) => St::Give(match (&vals[0], &vals[1]) {
            (V::I(a), V::I(b)) => V::I(
                match o {
                    '+' => a.wrapping_add(*b),
                    '-' => a.wrapping_sub(*b),
                    _ => a.wrapping_mul(*b),
                } & MASK,
            ),
            (V::F(a), V::F(b)) => V::F(match o {
                '+' => a + b,
                '-' => a - b,
                _ => a * b,
            }),
            _ => panic!("harness: operand types"),
        }),
        E::Lt(..) => match (&vals[0], &vals[1]) {
            (V::I(a), V::I(b)) => St::Give(V::B(a < b)),
            _ => panic!("harness: operand types"),
        },
        E::Rec(..) => {
            match &vals[0] {
                V::I(i) => record(events, "i32", format!("{:x}", *i as u32)),
                V::F(f) => record(events, "f64", bits(*f)),
                V::B(b) => record(events, "i32", format!("{:x}", *b as u32)),
                _ => panic!("harness: record"),
            }
            St::Give(vals[0].clone())
        }
        E::If(_, a, b, _) => match vals[0] {
            V::B(true) => St::Eval(a, env, ev),
            _ => St::Eval(b, env, ev),
        },
        E::FnOp(o, _) => {
            seen.fn_ops += 1;
            let h = ev.find(p.ops[*o].ability).expect("harness: unhandled operation");
            let arm = h.h.arms.iter().find(|x| x.op == *o).unwrap();
            let mut env = h.env.clone();
            for (x, v) in arm.params.iter().zip(vals) {
                env = env.bind(*x, v);
            }
            St::Eval(&arm.body, env, ev)
        }
        E::Call(f, _) => {
            let f = &p.funcs[*f];
            let mut env = Env::default();
            for ((x, _), v) in f.params.iter().zip(vals) {
                env = env.bind(*x, v);
            }
            push(stack, Fr::Ret);
            let ev = if f.conv == Conv::Direct { Ev2(None) } else { ev };
            St::Eval(&f.body, env, ev)
        }
        E::CallC(f, _, _) => {
            let V::C(c) = env.get(*f) else { panic!("harness: not a closure") };
            let mut env = c.2.clone();
            for (x, v) in c.0.iter().zip(vals) {
                env = env.bind(*x, v);
            }
            push(stack, Fr::Ret);
            St::Eval(c.1, env, ev)
        }
        E::Perform(o, _) => {
            seen.performs += 1;
            let h = ev.find(p.ops[*o].ability).expect("harness: unhandled operation");
            let arm = h.h.arms.iter().find(|x| x.op == *o).unwrap();
            let mut frames = vec![];
            loop {
                let Some(n) = stack.take() else { panic!("harness: handler not on the stack") };
                *stack = n.1.clone();
                frames.push(n.0.clone());
                if matches!(&n.0, Fr::Hnd(x, _) if x.id == h.id) {
                    break;
                }
            }
            if matches!(stack.as_deref(), Some(Node(Fr::Splice, _))) {
                return Err("an operation after a resumption whose result is used");
            }
            let mut env = h.env.clone();
            for (x, v) in arm.params.iter().zip(vals) {
                env = env.bind(*x, v);
            }
            seen.escapes += 1;
            push(stack, Fr::End);
            env.resume = Some(Rc::new(Resumption { frames: Rc::new(frames), base: stack.clone() }));
            St::Eval(&arm.body, env, ev)
        }
        E::Resume(..) => {
            seen.resumes += 1;
            seen.escapes -= 1;
            let r = env.resume.clone().expect("harness: resume outside an arm");
            if r.frames.iter().any(|f| matches!(f, Fr::Ret)) {
                return Err("resumed into a function that performed the operation for its caller");
            }
            if r.frames.iter().any(|f| matches!(f, Fr::Splice)) {
                return Err("resumed through an arm that is waiting for another resumption");
            }
            if r.frames.iter().any(|f| matches!(f, Fr::End)) {
                return Err("resumed into the completion or an arm of an inner handler");
            }
            let same = match (&*stack, &r.base) {
                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                (None, None) => true,
                _ => false,
            };
            if r.frames.iter().filter(|f| matches!(f, Fr::Hnd(..))).count() > 1 {
                return Err("resumed through an inner handler");
            }
            if !same {
                seen.used += 1;
                push(stack, Fr::Splice);
            }
            for f in r.frames.iter().rev() {
                push(stack, f.clone());
            }
            St::Give(vals.into_iter().next().unwrap())
        }
        _ => unreachable!(),
    })
}

// ---------------------------------------------------------------------------
// text

/// The convention a function needs, from what its body does.
pub fn conventions(p: &Prog, weak: bool) -> (Vec<Conv>, Vec<Conv>) {
    fn need(e: &E, c: &[Conv], l: &[Conv]) -> u8 {
        let sub = |v: &[&E]| v.iter().map(|e| need(e, c, l)).max().unwrap_or(0);
        match e {
            E::Perform(..) | E::Handle(_) | E::HandleSrc(_) | E::Resume(..) => 2,
            E::CallC(_, s, v) => (l[*s] as u8).max(sub(&v.iter().collect::<Vec<_>>())),
            E::FnOp(_, v) => 1.max(sub(&v.iter().collect::<Vec<_>>())),
            E::Call(f, v) => (c[*f] as u8).max(sub(&v.iter().collect::<Vec<_>>())),
            E::Bin(_, a, b, _) | E::Lt(a, b) | E::Let(_, _, a, b) => sub(&[a, b]),
            E::If(a, b, d, _) => sub(&[a, b, d]),
            E::Rec(a, _) => need(a, c, l),
            _ => 0,
        }
    }
    let conv = |n: u8| match n {
        0 => Conv::Direct,
        1 => Conv::Evidence,
        _ => Conv::Cps,
    };
    let mut c = vec![Conv::Direct; p.funcs.len()];
    let mut l = vec![if weak { Conv::Direct } else { Conv::Cps }; p.sigs.len()];
    loop {
        let n: Vec<Conv> = p.funcs.iter().map(|f| conv(need(&f.body, &c, &l))).collect();
        let mut m = l.clone();
        for r in roots(p) {
            every(r, &mut |e| {
                if let E::Lam(s, _, b) = e {
                    m[*s] = conv(need(b, &n, &l).max(m[*s] as u8));
                }
            });
        }
        if n == c && m == l {
            return (c, l);
        }
        c = n;
        l = m;
    }
}

pub struct Emit<'a> {
    style: u32,
    never: Vec<bool>,
    branches: usize,
    /// what the resumption of the arm being written takes
    tok: String,
    p: &'a Prog,
    conv: Vec<Conv>,
    lam: Vec<Conv>,
    b: String,
    n: usize,
    /// the callable being written
    here: Conv,
    ok: bool,
    /// how often a call goes through a function value
    refs: usize,
    calls: usize,
    aliases: Vec<String>,
}

#[derive(Clone, Default)]
struct Sco {
    vars: Vec<(usize, String)>,
    token: Option<String>,
}

/// The program as verified control IR, or `None` where it has no such form (a handler inside
/// an operation that answers in place).
fn every<'e>(e: &'e E, f: &mut dyn FnMut(&'e E)) {
    f(e);
    match e {
        E::Bin(_, a, b, _) | E::Lt(a, b) | E::Let(_, _, a, b) => {
            every(a, f);
            every(b, f);
        }
        E::Rec(a, _) | E::Resume(a, _) | E::Lam(_, _, a) => every(a, f),
        E::If(a, b, c, _) => {
            every(a, f);
            every(b, f);
            every(c, f);
        }
        E::Perform(_, v) | E::FnOp(_, v) | E::Call(_, v) | E::CallC(_, _, v) => v.iter().for_each(|x| every(x, f)),
        E::Handle(h) | E::HandleSrc(h) => {
            every(&h.body, f);
            every(&h.dob, f);
            h.arms.iter().for_each(|a| every(&a.body, f));
        }
        E::Int(_) | E::Flt(_) | E::Bool(_) | E::Nil | E::Var(..) | E::In(_) => {}
    }
}

fn roots(p: &Prog) -> Vec<&E> {
    p.funcs.iter().map(|f| &f.body).chain(p.main.as_ref()).collect()
}

/// Operations no arm of which resumes.
fn abandoned(p: &Prog) -> Vec<bool> {
    let mut v: Vec<bool> = p.ops.iter().map(|o| o.general).collect();
    for r in roots(p) {
        every(r, &mut |e| {
            if let E::Handle(h) | E::HandleSrc(h) = e {
                for a in &h.arms {
                    every(&a.body, &mut |x| {
                        if matches!(x, E::Resume(..)) {
                            v[a.op] = false;
                        }
                    });
                }
            }
        });
    }
    v
}

/// `style`: bit 0 gives operations that are never resumed the empty result type, bit 1 writes
/// conditionals whose value is not needed without a result, bit 2 some of those as switches,
/// bit 3 makes the first two abilities instances of one, bit 4 gives closures the weakest
/// convention, bit 5 resumes in a closure.
pub fn emit(p: &Prog, refs: usize, style: u32) -> Option<String> {
    let never = if style & 1 != 0 { abandoned(p) } else { vec![false; p.ops.len()] };
    let (conv, lam) = conventions(p, style & 16 != 0);
    let mut e = Emit { style, never, p, conv, lam, b: String::new(), n: 0, here: Conv::Direct, ok: true, refs, calls: 0, aliases: vec![], branches: 0, tok: String::new() };
    e.module();
    let al: String = e.aliases.iter().enumerate().map(|(i, d)| format!("!r{i} = {d}\n")).collect();
    e.ok.then(|| e.b.replacen("!!ALIASES\n", &al, 1))
}

fn word(c: Conv) -> &'static str {
    match c {
        Conv::Direct => "direct",
        Conv::Evidence => "evidence_direct",
        Conv::Cps => "cps",
    }
}

impl Emit<'_> {
    fn ty(&self, t: T) -> String {
        match t {
            T::I => "core.i32".into(),
            T::F => "core.f64".into(),
            T::B => "core.i1".into(),
            T::N => "core.nil".into(),
            T::C(s) => format!("!c{s}"),
        }
    }

    fn ability(&self, k: usize) -> String {
        match k {
            0 | 1 if self.style & 8 != 0 => format!("core.ability_ref({}) {{name = @A}}", ["core.i32", "core.f64"][k]),
            _ => format!("core.ability_ref() {{name = @A{k}}}"),
        }
    }

    fn v(&mut self) -> String {
        self.n += 1;
        format!("%{}", self.n)
    }

    fn op(&mut self, rhs: String) -> String {
        let v = self.v();
        writeln!(self.b, "{v} = {rhs}").unwrap();
        v
    }

    fn line(&mut self, s: String) {
        writeln!(self.b, "{s}").unwrap();
    }

    fn module(&mut self) {
        self.line("core.module @ctl {".into());
        for (s, sig) in self.p.sigs.iter().enumerate() {
            let mut v = vec![self.ty(sig.result)];
            v.extend(sig.params.iter().map(|t| self.ty(*t)));
            self.line(format!("!c{s} = tribute_control.callable({}) {{tribute.calling_convention = {}}}", v.join(", "), self.lam[s] as u8));
        }
        self.line("!!ALIASES".into());
        self.line("tribute_control.func @v_in_i32(%k: core.i32) -> core.i32 convention(direct)".into());
        for t in ["i32", "f64", "i1"] {
            self.line(format!("tribute_control.func @v_rec_{t}(%x: core.{t}) -> core.nil convention(direct)"));
        }
        for (i, f) in self.p.funcs.iter().enumerate() {
            self.n = 0;
            let mut sc = Sco::default();
            let mut ps = vec![];
            for (v, t) in &f.params {
                let x = self.v();
                ps.push(format!("{x}: {}", self.ty(*t)));
                sc.vars.push((*v, x));
            }
            self.here = self.conv[i];
            self.line(format!("tribute_control.func @f{i}({}) -> {} convention({}) {{", ps.join(", "), self.ty(f.result), word(self.conv[i])));
            let r = self.expr(&f.body, &sc);
            self.line(format!("tribute_control.return {r}\n}}"));
        }
        self.n = 0;
        self.here = Conv::Cps;
        self.line("tribute_control.func @main() -> core.nil convention(cps) {".into());
        let r = self.expr(self.p.main.as_ref().unwrap(), &Sco::default());
        self.line(format!("tribute_control.return {r}\n}}\n}}"));
    }

    fn args(&mut self, v: &[E], sc: &Sco) -> String {
        let a: Vec<String> = v.iter().map(|e| self.expr(e, sc)).collect();
        a.join(", ")
    }

    fn expr(&mut self, e: &E, sc: &Sco) -> String {
        match e {
            E::Int(i) => self.op(format!("arith.const {{value = {i}}} : core.i32")),
            E::Flt(f) => self.op(format!("arith.const {{value = {f:?}}} : core.f64")),
            E::Bool(b) => self.op(format!("arith.const {{value = {b}}} : core.i1")),
            E::Nil => self.op("arith.const {value = unit} : core.nil".into()),
            E::Var(v, _) => sc.vars.iter().rev().find(|x| x.0 == *v).unwrap_or_else(|| panic!("harness: variable {v}")).1.clone(),
            E::In(k) => {
                let c = self.op(format!("arith.const {{value = {k}}} : core.i32"));
                let r = self.op(format!("tribute_control.call {c} {{callee = @v_in_i32}} : core.i32"));
                self.mask(&r)
            }
            E::Bin(o, a, b, t) => {
                let (x, y) = (self.expr(a, sc), self.expr(b, sc));
                let n = match o {
                    '+' => "add",
                    '-' => "sub",
                    _ => "mul",
                };
                if *t == T::I {
                    let r = self.op(format!("arith.{n}i {x}, {y} : core.i32"));
                    self.mask(&r)
                } else {
                    self.op(format!("arith.{n}f {x}, {y} : core.f64"))
                }
            }
            E::Lt(a, b) => {
                let (x, y) = (self.expr(a, sc), self.expr(b, sc));
                self.op(format!("arith.cmpi {x}, {y} {{predicate = @slt}} : core.i1"))
            }
            E::Rec(a, t) => {
                let x = self.expr(a, sc);
                let n = match t {
                    T::I => "i32",
                    T::F => "f64",
                    _ => "i1",
                };
                self.op(format!("tribute_control.call {x} {{callee = @v_rec_{n}}} : core.nil"));
                x
            }
            E::Let(v, _, a, b) if self.style & 2 != 0 && matches!(&**a, E::If(..)) && !used(b, *v) => {
                let E::If(c, x, y, _) = &**a else { unreachable!() };
                self.branch(c, x, y, sc);
                self.expr(b, sc)
            }
            E::Let(v, _, a, b) => {
                let x = self.expr(a, sc);
                let mut sc = sc.clone();
                sc.vars.push((*v, x));
                self.expr(b, &sc)
            }
            E::If(c, a, b, T::N) if self.style & 2 != 0 => {
                self.branch(c, a, b, sc);
                self.expr(&E::Nil, sc)
            }
            E::If(c, a, b, t) => {
                let x = self.expr(c, sc);
                let r = self.v();
                let ty = self.ty(*t);
                self.line(format!("{r} = scf.if {x} : {ty} {{"));
                let y = self.expr(a, sc);
                self.line(format!("scf.yield {y}\n}} {{"));
                let y = self.expr(b, sc);
                self.line(format!("scf.yield {y}\n}}"));
                r
            }
            E::Perform(o, v) | E::FnOp(o, v) => {
                let general = matches!(e, E::Perform(..));
                self.ok &= if general { self.here == Conv::Cps } else { self.here != Conv::Direct };
                let a = self.args(v, sc);
                let d = &self.p.ops[*o];
                let never = self.never[*o];
                let rt = if never { "core.never".into() } else { self.ty(d.result) };
                let (t, sp) = (d.result, if a.is_empty() { "" } else { " " });
                let r = self.op(format!(
                    "tribute_control.perform{sp}{a} {{ability_ref = {}, op_name = @{}, operation_kind = @{}}} : {rt}",
                    self.ability(d.ability), d.name, if general { "op" } else { "fn" }
                ));
                if !never {
                    return r;
                }
                // stands for the value that never comes
                match t {
                    T::I => self.op("arith.const {value = 77} : core.i32".into()),
                    T::F => self.op("arith.const {value = 7.75} : core.f64".into()),
                    T::B => self.op("arith.const {value = true} : core.i1".into()),
                    T::N => self.op("arith.const {value = unit} : core.nil".into()),
                    T::C(_) => {
                        self.ok = false;
                        r
                    }
                }
            }
            E::Call(f, v) => {
                self.ok &= self.conv[*f] as u8 <= self.here as u8;
                let a = self.args(v, sc);
                let d = &self.p.funcs[*f];
                let rt = self.ty(d.result);
                self.calls += 1;
                if self.refs > 0 && self.calls % self.refs == 0 {
                    // through a function value, possibly of a stronger convention
                    let lo = self.conv[*f] as usize;
                    let hi = self.here as usize;
                    if lo <= hi {
                        let k = lo + (self.calls / self.refs) % (hi - lo + 1);
                        let mut t = vec![rt.clone()];
                        t.extend(d.params.iter().map(|x| self.ty(x.1)));
                        let d = format!("tribute_control.callable({}) {{tribute.calling_convention = {k}}}", t.join(", "));
                        let i = self.aliases.iter().position(|x| *x == d).unwrap_or_else(|| {
                            self.aliases.push(d);
                            self.aliases.len() - 1
                        });
                        let r = self.op(format!("tribute_control.func_ref {{func_ref = @f{f}}} : !r{i}"));
                        let a = if a.is_empty() { r } else { format!("{r}, {a}") };
                        return self.op(format!("tribute_control.call_indirect {a} : {rt}"));
                    }
                }
                let sp = if a.is_empty() { "" } else { " " };
                self.op(format!("tribute_control.call{sp}{a} {{callee = @f{f}}} : {rt}"))
            }
            E::CallC(f, s, v) => {
                self.ok &= self.lam[*s] as u8 <= self.here as u8;
                let c = sc.vars.iter().rev().find(|x| x.0 == *f).unwrap().1.clone();
                let a = self.args(v, sc);
                let rt = self.ty(self.p.sigs[*s].result);
                let a = if a.is_empty() { c } else { format!("{c}, {a}") };
                self.op(format!("tribute_control.call_indirect {a} : {rt}"))
            }
            E::Lam(s, ps, b) => {
                let sig = self.p.sigs[*s].clone();
                let start = self.n;
                let r = self.v();
                let mut inner = Sco { vars: sc.vars.clone(), token: None };
                let mut params = vec![];
                for (v, t) in ps.iter().zip(&sig.params) {
                    let x = self.v();
                    params.push(format!("{x}: {}", self.ty(*t)));
                    inner.vars.push((*v, x));
                }
                let here = std::mem::replace(&mut self.here, self.lam[*s]);
                let outer = std::mem::take(&mut self.b);
                let x = self.expr(b, &inner);
                self.line(format!("tribute_control.return {x}\n}}"));
                let body = std::mem::replace(&mut self.b, outer);
                self.here = here;
                let caps: Vec<String> = outer_names(&body, start);
                let caps = format!(" captures [{}]", caps.join(", "));
                self.line(format!("{r} = tribute_control.lambda({}) -> {} convention({}){caps} {{", params.join(", "), self.ty(sig.result), word(self.lam[*s])));
                self.b += &body;
                r
            }
            E::Handle(h) | E::HandleSrc(h) => {
                self.ok &= self.here == Conv::Cps;
                self.handle(h, sc)
            }
            E::Resume(a, t) => {
                let x = self.expr(a, sc);
                let Some(k) = sc.token.clone() else {
                    self.ok = false;
                    return x;
                };
                let ty = self.ty(*t);
                if self.style & 32 == 0 {
                    return self.op(format!("tribute_control.resume {k}, {x} : {ty}"));
                }
                // the resumption handed to a closure that is called once
                let l = self.v();
                let (p, r) = (self.v(), self.v());
                let pt = self.tok.clone();
                self.line(format!("{l} = tribute_control.lambda({p}: {pt}) -> {ty} convention(cps) captures [{k}] {{"));
                self.line(format!("{r} = tribute_control.resume {k}, {p} : {ty}\ntribute_control.return {r}\n}}"));
                self.op(format!("tribute_control.call_indirect {l}, {x} : {ty}"))
            }
        }
    }

    /// a conditional without a value
    fn branch(&mut self, c: &E, a: &E, b: &E, sc: &Sco) {
        let x = self.expr(c, sc);
        self.branches += 1;
        let mut resumes = false;
        every(a, &mut |e| resumes |= matches!(e, E::Resume(..)));
        every(b, &mut |e| resumes |= matches!(e, E::Resume(..)));
        if resumes || self.style & 4 == 0 || self.here != Conv::Cps || self.branches % 2 == 0 {
            self.line(format!("scf.if {x} {{"));
            self.expr(a, sc);
            self.line("scf.yield\n} {".into());
            self.expr(b, sc);
            self.line("scf.yield\n}".into());
            return;
        }
        let (n, m) = (self.branches as i64 % 5 - 2, self.branches as i64 % 3 + 7);
        let k = self.v();
        self.line(format!("{k} = scf.if {x} : core.i32 {{"));
        let y = self.op(format!("arith.const {{value = {n}}} : core.i32"));
        self.line(format!("scf.yield {y}\n}} {{"));
        let y = self.op(format!("arith.const {{value = {m}}} : core.i32"));
        self.line(format!("scf.yield {y}\n}}\nscf.switch {k} {{"));
        if self.branches % 4 < 2 {
            // an alternative that is never taken
            self.line(format!("scf.case {{value = {}}} {{", n + 1));
            self.expr(b, sc);
            self.line("scf.yield\n}".into());
        }
        self.line(format!("scf.case {{value = {n}}} {{"));
        self.expr(a, sc);
        self.line("scf.yield\n}\nscf.default {".into());
        self.expr(b, sc);
        self.line("scf.yield\n}\n}".into());
    }

    fn mask(&mut self, v: &str) -> String {
        let m = self.op(format!("arith.const {{value = {MASK}}} : core.i32"));
        self.op(format!("arith.and {v}, {m} : core.i32"))
    }

    fn handle(&mut self, h: &H, sc: &Sco) -> String {
        let r = self.v();
        let ty = self.ty(h.ty);
        let plain = Sco { vars: sc.vars.clone(), token: None };
        self.line(format!("{r} = tribute_control.handle : {ty} {{"));
        let x = self.expr(&h.body, &plain);
        self.line(format!("tribute_control.yield {x}\n}} {{"));
        let d = self.v();
        self.line(format!("^c{}({d}: {ty}):", &d[1..]));
        let mut inner = sc.clone();
        inner.vars.push((h.dov, d));
        let x = self.expr(&h.dob, &inner);
        self.line(format!("tribute_control.yield {x}\n}} {{"));
        if h.arms.is_empty() {
            let n = self.v();
            self.line(format!("^h{}:", &n[1..]));
        }
        for a in &h.arms {
            let d = self.p.ops[a.op].clone();
            self.line(format!(
                "tribute_control.handler {{ability_ref = {}, kind = @{}, op_name = @{}, operation_result_type = {}}} {{",
                self.ability(d.ability), if d.general { "op" } else { "fn" }, d.name, if self.never[a.op] { "core.never".into() } else { self.ty(d.result) }
            ));
            let mut inner = Sco { vars: sc.vars.clone(), token: None };
            let mut ps = vec![];
            for (v, t) in a.params.iter().zip(&d.params) {
                let x = self.v();
                ps.push(format!("{x}: {}", self.ty(*t)));
                inner.vars.push((*v, x));
            }
            if d.general && !self.never[a.op] {
                let k = self.v();
                ps.push(format!("{k}: tribute_control.resume_token({}, {ty})", self.ty(d.result)));
                inner.token = Some(k);
            }
            let n = self.v();
            self.line(if ps.is_empty() { format!("^a{}:", &n[1..]) } else { format!("^a{}({}):", &n[1..], ps.join(", ")) });
            let here = self.here;
            if !d.general {
                self.here = Conv::Evidence;
            }
            let t = self.ty(d.result);
            let tok = std::mem::replace(&mut self.tok, t);
            let x = self.expr(&a.body, &inner);
            self.tok = tok;
            self.here = here;
            self.line(format!("tribute_control.yield {x}\n}}"));
        }
        self.line("}".into());
        r
    }
}

fn used(e: &E, v: usize) -> bool {
    let mut u = false;
    every(e, &mut |x| u |= matches!(x, E::Var(w, _) if *w == v) || matches!(x, E::CallC(w, ..) if *w == v));
    u
}

/// values named in `body` that were defined before `start`
fn outer_names(body: &str, start: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let b = body.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let n: usize = body[i + 1..j].parse().unwrap_or(usize::MAX);
            let s = body[i..j].to_string();
            if n <= start && !out.contains(&s) {
                out.push(s);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

// ---------------------------------------------------------------------------
// evaluator of the continuation-passing form

pub mod cps {
    use super::*;
    use trunk_ir::refs::{BlockRef, OpRef, TypeRef, ValueRef};
    use trunk_ir::types::Attribute;
    use trunk_ir::{IrContext, Symbol};

    #[derive(Clone)]
    pub enum W {
        I(i64),
        F(f64),
        N,
        S(Rc<std::cell::RefCell<Vec<W>>>),
        C(Rc<Clo>),
        /// a named function with an environment value
        Fun(Symbol, bool),
        /// the end of the program
        Done,
        E(Evid),
    }

    pub struct Clo {
        op: OpRef,
        env: HashMap<ValueRef, W>,
        ev: Option<Evid>,
    }

    #[derive(Clone)]
    pub struct Evid(Option<Rc<(trunk_ir::TypeRef, W, W, Evid)>>);

    pub enum Res {
        Next,
        Yield(Vec<W>),
        Return(W),
        Tail(W, Vec<W>),
        End(W),
    }

    type Step<T> = Result<T, String>;

    pub struct X<'c> {
        pub ctx: &'c IrContext,
        funcs: HashMap<Symbol, OpRef>,
        inputs: Vec<u64>,
        pub events: Vec<Event>,
        pub ops: u64,
        depth: u32,
        pub transfers: u64,
        /// resumptions handed to arms: the value, whether it was used
        pub given: Vec<(Rc<Clo>, bool)>,
    }

    struct Fr {
        vals: HashMap<ValueRef, W>,
        ev: Option<Evid>,
    }

    impl<'c> X<'c> {
        pub fn new(ctx: &'c IrContext, module: trunk_ir::Module, inputs: &[u64]) -> X<'c> {
            let mut funcs = HashMap::new();
            for op in &ctx.block(module.first_block(ctx).unwrap()).ops {
                if let Some(n) = ctx.op(*op).attributes.get_symbol("sym_name") {
                    funcs.insert(n, *op);
                }
            }
            X { ctx, funcs, inputs: inputs.to_vec(), events: vec![], ops: 0, depth: 0, transfers: 0, given: vec![] }
        }

        pub fn main(&mut self) -> Step<()> {
            let f = W::Fun(Symbol::new("main"), false);
            match self.invoke(f, vec![W::E(Evid(None)), W::Done])? {
                Res::End(_) => Ok(()),
                _ => Err("main came back instead of passing its result on".into()),
            }
        }

        /// After the run: using a used resumption once more has to stop the program.
        pub fn again(&mut self) -> Step<u64> {
            let mut n = 0;
            for (c, used) in std::mem::take(&mut self.given) {
                if !used {
                    continue;
                }
                n += 1;
                let b = self.ctx.region(self.ctx.op(c.op).regions[0]).blocks[0];
                let t = self.ctx.types.get(self.ctx.value_ty(self.ctx.block_args(b)[1])).name.to_string();
                let v = match t.as_str() {
                    "f64" => W::F(0.0),
                    "nil" => W::N,
                    _ => W::I(0),
                };
                match self.enter(W::C(c), vec![W::Done, v]) {
                    Err(e) if e.contains("unreachable") => {}
                    Err(e) => return Err(e),
                    Ok(_) => return Err("a resumption can be used a second time".into()),
                }
            }
            Ok(n)
        }

        /// Calls and keeps following tail transfers until something comes back.
        fn invoke(&mut self, mut f: W, mut args: Vec<W>) -> Step<Res> {
            self.depth += 1;
            if self.depth > 300 {
                return Err("harness-limit".into());
            }
            let r = loop {
                match self.enter(f, args)? {
                    Res::Tail(g, a) => {
                        self.transfers += 1;
                        f = g;
                        args = a;
                    }
                    r => break r,
                }
            };
            self.depth -= 1;
            Ok(r)
        }

        fn call(&mut self, f: W, args: Vec<W>) -> Step<W> {
            match self.invoke(f, args)? {
                Res::Return(w) => Ok(w),
                Res::End(_) => Err("the program's end was reached inside an ordinary call".into()),
                _ => Err("an ordinary call did not return".into()),
            }
        }

        fn enter(&mut self, f: W, args: Vec<W>) -> Step<Res> {
            let (op, vals, ev) = match f {
                W::Done => return Ok(Res::End(args.into_iter().next().unwrap_or(W::N))),
                W::Fun(name, env) => {
                    if let Some(r) = self.host(name, &args)? {
                        return Ok(Res::Return(r));
                    }
                    let op = *self.funcs.get(&name).ok_or_else(|| format!("no function @{name}"))?;
                    // a function value's code takes its environment too
                    let _ = env;
                    (op, HashMap::new(), None)
                }
                W::C(c) => {
                    if let Some(g) = self.given.iter_mut().find(|g| Rc::ptr_eq(&g.0, &c)) {
                        g.1 = true;
                    }
                    (c.op, c.env.clone(), c.ev.clone())
                }
                _ => return Err("a value that is no function is called".into()),
            };
            let d = self.ctx.op(op);
            let Some(r) = d.regions.first() else { return Err("a declaration is called".into()) };
            let b = self.ctx.region(*r).blocks[0];
            let mut fr = Fr { vals, ev };
            let ps = self.ctx.block_args(b).to_vec();
            if ps.len() != args.len() {
                return Err(format!("{} arguments for {} parameters", args.len(), ps.len()));
            }
            for (p, a) in ps.iter().zip(args) {
                self.fits(&a, self.ctx.value_ty(*p))?;
                if let W::E(e) = &a {
                    fr.ev = Some(e.clone());
                }
                fr.vals.insert(*p, a);
            }
            self.block(b, &mut fr)
        }

        /// the value can have the type at all
        fn fits(&self, w: &W, t: TypeRef) -> Step<()> {
            let d = self.ctx.types.get(t);
            let n = format!("{}.{}", d.dialect, d.name);
            let ok = match n.as_str() {
                "core.i32" | "core.i1" => matches!(w, W::I(_)),
                "core.f64" => matches!(w, W::F(_)),
                "core.nil" => matches!(w, W::N),
                "closure.closure" => matches!(w, W::C(_) | W::Fun(..) | W::Done),
                "core.array" => matches!(w, W::E(_)),
                "adt.struct" => matches!(w, W::S(_)),
                _ => true,
            };
            if ok { Ok(()) } else { Err(format!("a value of another kind arrives where {n} is expected")) }
        }

        fn host(&mut self, name: Symbol, a: &[W]) -> Step<Option<W>> {
            let n = name.to_string();
            Ok(Some(match (n.as_str(), a) {
                ("v_in_i32", [W::I(k)]) => W::I(self.inputs[*k as usize & 15] as i32 as i64),
                ("v_rec_i32", [W::I(i)]) => {
                    record(&mut self.events, "i32", format!("{:x}", *i as u32));
                    W::N
                }
                ("v_rec_i1", [W::I(i)]) => {
                    record(&mut self.events, "i32", format!("{:x}", *i as u32 & 1));
                    W::N
                }
                ("v_rec_f64", [W::F(f)]) => {
                    record(&mut self.events, "f64", bits(*f));
                    W::N
                }
                (x, _) if x.starts_with("v_") => return Err(format!("host function {x} called with other arguments")),
                _ => return Ok(None),
            }))
        }

        fn block(&mut self, b: BlockRef, fr: &mut Fr) -> Step<Res> {
            for op in self.ctx.block(b).ops.to_vec() {
                match self.op(op, fr)? {
                    Res::Next => {}
                    r => return Ok(r),
                }
            }
            Ok(Res::Next)
        }

        fn region(&mut self, op: OpRef, i: usize, fr: &mut Fr) -> Step<Res> {
            let b = self.ctx.region(self.ctx.op(op).regions[i]).blocks[0];
            self.block(b, fr)
        }

        fn evidence(&self, fr: &Fr, op: OpRef) -> Step<(Symbol, W, W)> {
            let a = self.ctx.op(op).attributes.get_type("ability_ref").ok_or("no ability")?;
            let name = self.ctx.types.get(a).attrs.get_symbol("name").ok_or("no ability name")?;
            let mut e = fr.ev.clone().ok_or("an operation is performed where there is no evidence")?;
            while let Some(x) = e.0.clone() {
                if x.0 == a {
                    return Ok((name, x.1.clone(), x.2.clone()));
                }
                e = x.3.clone();
            }
            Err(format!("no handler for {name} is installed"))
        }

        fn op(&mut self, op: OpRef, fr: &mut Fr) -> Step<Res> {
            self.ops += 1;
            if self.ops > 3_000_000 {
                return Err("the converted program does not stop".into());
            }
            let d = self.ctx.op(op);
            let name = format!("{}.{}", d.dialect, d.name);
            let mut vs: Vec<W> = vec![];
            for v in self.ctx.op_operands(op) {
                vs.push(fr.vals.get(v).cloned().ok_or_else(|| format!("{name} reads a value that is not in its environment"))?);
            }
            let attrs = &d.attributes;
            let mut set = |fr: &mut Fr, w: W| -> Step<Res> {
                self.fits(&w, self.ctx.op_result_types(op)[0])?;
                fr.vals.insert(self.ctx.op_results(op)[0], w);
                Ok(Res::Next)
            };
            match name.as_str() {
                "arith.const" => {
                    let w = match attrs.get("value") {
                        Some(Attribute::Int(i)) => W::I(*i as i64),
                        Some(Attribute::Bool(b)) => W::I(*b as i64),
                        Some(Attribute::FloatBits(f)) => W::F(f64::from_bits(*f)),
                        Some(Attribute::Unit) => W::N,
                        a => return Err(format!("constant {a:?}")),
                    };
                    set(fr, w)
                }
                "arith.addi" | "arith.subi" | "arith.muli" | "arith.and" => {
                    let (W::I(a), W::I(b)) = (&vs[0], &vs[1]) else { return Err(format!("{name} on other values")) };
                    let (a, b) = (*a as i32, *b as i32);
                    let r = match name.as_str() {
                        "arith.addi" => a.wrapping_add(b),
                        "arith.subi" => a.wrapping_sub(b),
                        "arith.muli" => a.wrapping_mul(b),
                        _ => a & b,
                    };
                    set(fr, W::I(r as i64))
                }
                "arith.addf" | "arith.subf" | "arith.mulf" => {
                    let (W::F(a), W::F(b)) = (&vs[0], &vs[1]) else { return Err(format!("{name} on other values")) };
                    set(
                        fr,
                        W::F(match name.as_str() {
                            "arith.addf" => a + b,
                            "arith.subf" => a - b,
                            _ => a * b,
                        }),
                    )
                }
                "arith.cmpi" => {
                    let (W::I(a), W::I(b)) = (&vs[0], &vs[1]) else { return Err("comparison of other values".into()) };
                    set(fr, W::I((*a < *b) as i64))
                }
                "core.unrealized_conversion_cast" => {
                    let w = vs.remove(0);
                    set(fr, w)
                }
                "adt.struct_new" => set(fr, W::S(Rc::new(std::cell::RefCell::new(vs)))),
                "adt.struct_get" => {
                    let W::S(s) = &vs[0] else { return Err("field of something else".into()) };
                    let k = attrs.get_i128("field").ok_or("no field")? as usize;
                    let w = s.borrow().get(k).cloned().ok_or("no such field")?;
                    set(fr, w)
                }
                "adt.struct_set" => {
                    let W::S(s) = &vs[0] else { return Err("field of something else".into()) };
                    let k = attrs.get_i128("field").ok_or("no field")? as usize;
                    *s.borrow_mut().get_mut(k).ok_or("no such field")? = vs[1].clone();
                    Ok(Res::Next)
                }
                "adt.ref_null" => set(fr, W::N),
                "closure.lambda" => {
                    let env = self.ctx.op_operands(op).iter().copied().zip(vs).collect();
                    let c = W::C(Rc::new(Clo { op, env, ev: fr.ev.clone() }));
                    set(fr, c)
                }
                "closure.new" => {
                    let f = attrs.get_symbol("func_ref").ok_or("no function")?;
                    set(fr, W::Fun(f, true))
                }
                "scf.if" => {
                    let W::I(c) = vs[0] else { return Err("condition".into()) };
                    let r = self.region(op, if c & 1 != 0 { 0 } else { 1 }, fr)?;
                    match r {
                        Res::Yield(v) => {
                            for (x, w) in self.ctx.op_results(op).iter().zip(v) {
                                fr.vals.insert(*x, w);
                            }
                            Ok(Res::Next)
                        }
                        r => Ok(r),
                    }
                }
                "scf.switch" => {
                    let W::I(c) = vs[0] else { return Err("switch value".into()) };
                    let b = self.ctx.region(d.regions[0]).blocks[0];
                    let mut dflt = None;
                    for a in self.ctx.block(b).ops.to_vec() {
                        let ad = self.ctx.op(a);
                        if ad.name == Symbol::new("case") {
                            if ad.attributes.get_i128("value") == Some(c as i128) {
                                dflt = Some(a);
                                break;
                            }
                        } else if dflt.is_none() {
                            dflt = Some(a);
                        }
                    }
                    let Some(a) = dflt else { return Ok(Res::Next) };
                    match self.region(a, 0, fr)? {
                        Res::Yield(_) => Ok(Res::Next),
                        r => Ok(r),
                    }
                }
                "scf.yield" => Ok(Res::Yield(vs)),
                "func.return" => Ok(Res::Return(vs.into_iter().next().unwrap_or(W::N))),
                "func.unreachable" => Err("the converted program reaches unreachable code".into()),
                "func.constant" => {
                    let f = attrs.get_symbol("func_ref").ok_or("no function")?;
                    set(fr, W::Fun(f, false))
                }
                "func.call" => {
                    let f = attrs.get_symbol("callee").ok_or("no callee")?;
                    let w = self.call(W::Fun(f, false), vs)?;
                    self.fits(&w, self.ctx.op_result_types(op)[0])?;
                    fr.vals.insert(self.ctx.op_results(op)[0], w);
                    Ok(Res::Next)
                }
                "func.call_indirect" => {
                    let f = vs.remove(0);
                    let w = self.indirect(f, vs, op, |x, f, a| x.call(f, a))?;
                    self.fits(&w, self.ctx.op_result_types(op)[0])?;
                    fr.vals.insert(self.ctx.op_results(op)[0], w);
                    Ok(Res::Next)
                }
                "func.tail_call" => {
                    let f = attrs.get_symbol("callee").ok_or("no callee")?;
                    Ok(Res::Tail(W::Fun(f, false), vs))
                }
                "func.tail_call_indirect" => {
                    let f = vs.remove(0);
                    self.indirect(f, vs, op, |_, f, a| Ok(Res::Tail(f, a)))
                }
                "ability.perform" => {
                    let (ab, _, general) = self.evidence(fr, op)?;
                    let k = vs.remove(0);
                    if let W::C(c) = &k {
                        self.given.push((c.clone(), false));
                    }
                    let o = attrs.get_symbol("op_name").ok_or("no operation")?;
                    let idx = tribute_ir::dialect::ability::compute_op_idx(Some(ab), Some(o));
                    let pay = W::S(Rc::new(std::cell::RefCell::new(vs)));
                    let e = W::E(fr.ev.clone().unwrap());
                    Ok(Res::Tail(general, vec![e, k, W::I(idx as i64), pay]))
                }
                "ability.call" => {
                    let (ab, tr, _) = self.evidence(fr, op)?;
                    let o = attrs.get_symbol("op_name").ok_or("no operation")?;
                    let idx = tribute_ir::dialect::ability::compute_op_idx(Some(ab), Some(o));
                    let pay = W::S(Rc::new(std::cell::RefCell::new(vs)));
                    let e = W::E(fr.ev.clone().unwrap());
                    let w = self.call(tr, vec![e, W::I(idx as i64), pay])?;
                    self.fits(&w, self.ctx.op_result_types(op)[0])?;
                    fr.vals.insert(self.ctx.op_results(op)[0], w);
                    Ok(Res::Next)
                }
                "ability.handle_dispatch" => {
                    let W::E(mut e) = vs.remove(0) else { return Err("evidence".into()) };
                    let Some(Attribute::List(l)) = attrs.get("ability_refs") else { return Err("no abilities".into()) };
                    if vs.len() != 2 * l.len() {
                        return Err("dispatchers and abilities do not pair up".into());
                    }
                    for (i, a) in l.iter().enumerate() {
                        let Attribute::Type(t) = a else { return Err("ability".into()) };
                        e = Evid(Some(Rc::new((*t, vs[2 * i].clone(), vs[2 * i + 1].clone(), e))));
                    }
                    let b = self.ctx.region(d.regions[0]).blocks[0];
                    let p = self.ctx.block_args(b)[0];
                    fr.vals.insert(p, W::E(e.clone()));
                    let old = fr.ev.replace(e);
                    let r = self.block(b, fr);
                    fr.ev = old;
                    r
                }
                _ => Err(format!("harness: operation {name} in converted code")),
            }
        }

        /// A call of a function value: its code gets the environment at the declared position.
        fn indirect<R>(&mut self, f: W, mut args: Vec<W>, op: OpRef, go: impl FnOnce(&mut Self, W, Vec<W>) -> Step<R>) -> Step<R> {
            if let W::Fun(name, true) = &f {
                let at = self.env_index(op);
                let at = at.min(args.len());
                args.insert(at, W::N);
                let g = W::Fun(*name, false);
                return go(self, g, args);
            }
            go(self, f, args)
        }

        fn env_index(&self, op: OpRef) -> usize {
            let c = self.ctx.op_operands(op)[0];
            let t = self.ctx.value_ty(c);
            self.ctx.types.get(t).attrs.get_i128("tribute.closure_environment_index").unwrap_or(0) as usize
        }
    }
}
