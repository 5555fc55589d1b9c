//! Higher-order programs in direct style: generator, reference evaluator, and the IR the
//! compiler's front end makes of them (closure literals, wrapped functions, erased storage).
use crate::interp::Event;
use crate::rng::Rng;
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    I,
    F,
    B,
    /// nil; only the result of a function value
    U,
    Fn(Rc<Sig>),
    /// a record of a closure and a number; the closure field is erased or has its own type
    Rec(Rc<Sig>, bool),
}

#[derive(PartialEq, Eq, Debug)]
pub struct Sig {
    pub ps: Vec<Ty>,
    pub r: Ty,
    /// called with handler evidence
    pub ev: bool,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i32),
    Flt(f64),
    Bool(bool),
    Unit,
    Var(usize),
    In(u32),
    Bin(char, Rc<E>, Rc<E>, Ty),
    Lt(Rc<E>, Rc<E>),
    Out(Rc<E>, Ty),
    Let(usize, Rc<E>, Rc<E>),
    If(Rc<E>, Rc<E>, Rc<E>, Ty),
    Lam(Rc<Sig>, Vec<usize>, Rc<E>),
    App(Rc<Sig>, Rc<E>, Vec<E>),
    Call(usize, Vec<E>),
    /// a named function as a value
    Name(usize, Rc<Sig>),
    New(Rc<Sig>, bool, Rc<E>, Rc<E>),
    GetF(Rc<Sig>, bool, Rc<E>),
    GetN(Rc<Sig>, bool, Rc<E>),
    /// through a function that is generic in the value's type
    Gen(Ty, Rc<E>),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub ps: Vec<(usize, Ty)>,
    pub r: Ty,
    pub ev: bool,
    pub body: E,
}

#[derive(Default, Clone, Debug)]
pub struct Prog {
    pub funcs: Vec<Func>,
    pub main: Option<E>,
}

// --- generator

pub struct Gen<'a> {
    r: &'a mut Rng,
    p: Prog,
    next: usize,
    budget: i32,
    evidence: bool,
    records: bool,
    /// inside a context that has evidence to hand on
    has_ev: bool,
    /// function values neither sit in records nor pass through generic functions
    simple: bool,
    /// many variables in scope, many of them captured
    wide: bool,
}

type Sc = Vec<(usize, Ty)>;

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        let evidence = r.chance(35);
        let records = r.chance(60);
        let wide = r.chance(30);
        Gen { r, p: Prog::default(), next: 0, budget: 0, evidence, records, has_ev: false, simple: false, wide }
    }

    pub fn simple(mut self) -> Self {
        self.simple = true;
        self.records = false;
        self
    }

    fn fresh(&mut self) -> usize {
        self.next += 1;
        self.next
    }

    fn scalar(&mut self) -> Ty {
        match self.r.below(8) {
            0..=4 => Ty::I,
            5 | 6 => Ty::F,
            _ => Ty::B,
        }
    }

    fn sig(&mut self, order: usize) -> Rc<Sig> {
        let n = if self.wide && self.r.chance(12) { 5 + self.r.below(5) } else { *self.r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4]) };
        let ps = (0..n).map(|_| if order > 0 && self.r.chance(35) { Ty::Fn(self.sig(order - 1)) } else { self.scalar() }).collect();
        let r = if order > 0 && self.r.chance(30) { Ty::Fn(self.sig(order - 1)) } else if self.r.chance(8) { Ty::U } else { self.scalar() };
        Rc::new(Sig { ps, r, ev: self.evidence && self.r.chance(40) })
    }

    fn ty(&mut self, order: usize) -> Ty {
        match self.r.below(10) {
            0..=4 => self.scalar(),
            5 if self.records => Ty::Rec(self.sig(order.min(1)), self.r.chance(50)),
            _ => Ty::Fn(self.sig(order)),
        }
    }

    pub fn program(mut self) -> Prog {
        let n = 1 + self.r.below(5);
        for _ in 0..n {
            let k = self.r.below(5);
            let mut ps: Vec<(usize, Ty)> = (0..k).map(|_| (self.fresh(), self.ty(2))).collect();
            if self.wide && self.r.chance(50) {
                for _ in 0..4 + self.r.below(5) {
                    let at = self.r.below(ps.len() + 1);
                    let p = (self.fresh(), self.scalar());
                    ps.insert(at, p);
                }
            }
            let r = self.ty(2);
            let ev = self.evidence && self.r.chance(50);
            self.has_ev = ev;
            self.budget = 10 + self.r.below(30) as i32;
            let body = if self.r.chance(25) {
                // counts down; the rest of its arguments are handed on
                let c = self.fresh();
                let mut ps2 = vec![(c, Ty::I)];
                ps2.extend(ps.iter().cloned());
                let f = self.p.funcs.len();
                let base = self.expr(&r, &ps2, 3);
                let mut args = vec![E::Bin('-', Rc::new(E::Var(c)), Rc::new(E::Int(1)), Ty::I)];
                args.extend(ps.iter().map(|(v, t)| {
                    // now and then an argument that grows with the recursion
                    if self.r.chance(35) { self.expr(t, &ps2, 2) } else { E::Var(*v) }
                }));
                let again = E::Call(f, args);
                let v = self.fresh();
                let mut sc = ps2.clone();
                sc.push((v, r.clone()));
                let after = self.expr(&r, &sc, 2);
                let b = E::If(
                    Rc::new(E::Lt(Rc::new(E::Var(c)), Rc::new(E::Int(1)))),
                    Rc::new(base),
                    Rc::new(E::Let(v, Rc::new(again), Rc::new(after))),
                    r.clone(),
                );
                self.p.funcs.push(Func { ps: ps2, r, ev, body: b });
                continue;
            } else {
                self.expr(&r, &ps, 5)
            };
            self.p.funcs.push(Func { ps, r, ev, body });
        }
        self.has_ev = false;
        self.budget = 25 + self.r.below(60) as i32;
        // a row of bindings whose observations end up in main
        let mut sc: Sc = vec![];
        let mut binds = vec![];
        if self.wide {
            for k in 0..4 + self.r.below(6) {
                let v = self.fresh();
                if self.r.chance(75) {
                    binds.push((v, E::In(k as u32)));
                    sc.push((v, Ty::I));
                } else {
                    binds.push((v, E::Flt(k as f64 * 1.25)));
                    sc.push((v, Ty::F));
                }
            }
        }
        for _ in 0..1 + self.r.below(4) {
            let t = self.ty(2);
            let e = self.expr(&t, &sc, 5);
            let v = self.fresh();
            binds.push((v, e));
            sc.push((v, t));
        }
        let mut outs: Vec<E> = vec![];
        for _ in 0..2 + self.r.below(3) {
            self.budget = self.budget.max(15);
            let t = self.scalar();
            let e = self.expr(&t, &sc, 5);
            outs.push(E::Out(Rc::new(e), t));
        }
        let mut m = outs.pop().unwrap();
        while let Some(o) = outs.pop() {
            let v = self.fresh();
            m = E::Let(v, Rc::new(o), Rc::new(m));
        }
        while let Some((v, e)) = binds.pop() {
            m = E::Let(v, Rc::new(e), Rc::new(m));
        }
        self.p.main = Some(m);
        self.p
    }

    /// an expression of type `t`
    fn expr(&mut self, t: &Ty, sc: &Sc, depth: usize) -> E {
        self.budget -= 1;
        let vars: Vec<usize> = sc.iter().filter(|x| x.1 == *t).map(|x| x.0).collect();
        if depth == 0 || self.budget < 0 {
            if !vars.is_empty() && self.r.chance(80) {
                return E::Var(*self.r.pick(&vars));
            }
            return self.leaf(t, sc);
        }
        if !vars.is_empty() && self.r.chance(15) {
            return E::Var(*self.r.pick(&vars));
        }
        let d = depth - 1;
        for _ in 0..6 {
            match self.r.below(12) {
                0 => {
                    let lt = self.ty(2);
                    let a = self.expr(&lt, sc, d);
                    let v = self.fresh();
                    let mut sc = sc.clone();
                    sc.push((v, lt));
                    return E::Let(v, Rc::new(a), Rc::new(self.expr(t, &sc, d)));
                }
                1 => {
                    let c = self.expr(&Ty::B, sc, d.min(2));
                    let (a, b) = (self.expr(t, sc, d), self.expr(t, sc, d));
                    return E::If(Rc::new(c), Rc::new(a), Rc::new(b), t.clone());
                }
                2 | 3 => {
                    // call something in scope that gives the type
                    let fs: Vec<(usize, Rc<Sig>)> = sc
                        .iter()
                        .filter_map(|(v, x)| match x {
                            Ty::Fn(s) if s.r == *t => Some((*v, s.clone())),
                            _ => None,
                        })
                        .collect();
                    if let Some((v, s)) = (!fs.is_empty()).then(|| self.r.pick(&fs).clone()) {
                        let a = s.ps.iter().map(|p| self.expr(p, sc, d)).collect();
                        return E::App(s, Rc::new(E::Var(v)), a);
                    }
                }
                4 if self.r.chance(12) => {
                    // a function value called for what it does
                    let s0 = self.sig(1);
                    let s = Rc::new(Sig { ps: s0.ps.iter().cloned().collect(), r: Ty::U, ev: s0.ev });
                    let f = self.expr(&Ty::Fn(s.clone()), sc, d);
                    let a = s.ps.iter().map(|p| self.expr(p, sc, d)).collect();
                    let v = self.fresh();
                    return E::Let(v, Rc::new(E::App(s, Rc::new(f), a)), Rc::new(self.expr(t, sc, d)));
                }
                4 => {
                    // make a closure and call it at once, or call the result of an expression
                    let s0 = self.sig(1);
                    let s = Rc::new(Sig { ps: s0.ps.iter().cloned().collect(), r: t.clone(), ev: s0.ev });
                    let f = self.expr(&Ty::Fn(s.clone()), sc, d);
                    let a = s.ps.iter().map(|p| self.expr(p, sc, d)).collect();
                    return E::App(s, Rc::new(f), a);
                }
                5 | 6 => {
                    let fs: Vec<usize> = (0..self.p.funcs.len())
                        .filter(|f| self.p.funcs[*f].r == *t)
                        .collect();
                    if let Some(f) = (!fs.is_empty()).then(|| *self.r.pick(&fs)) {
                        return self.call(f, sc, d);
                    }
                }
                7 if *t != Ty::U && !(self.simple && matches!(t, Ty::Fn(_))) => return E::Gen(t.clone(), Rc::new(self.expr(t, sc, d))),
                8 if self.records => {
                    if let Ty::Fn(s) = t {
                        let k = self.r.chance(50);
                        let x = self.expr(&Ty::Rec(s.clone(), k), sc, d);
                        return E::GetF(s.clone(), k, Rc::new(x));
                    }
                    if *t == Ty::I {
                        let rs: Vec<_> = sc
                            .iter()
                            .filter_map(|(v, x)| match x {
                                Ty::Rec(s, k) => Some((*v, s.clone(), *k)),
                                _ => None,
                            })
                            .collect();
                        if let Some((v, s, k)) = (!rs.is_empty()).then(|| self.r.pick(&rs).clone()) {
                            return E::GetN(s, k, Rc::new(E::Var(v)));
                        }
                    }
                }
                _ => {
                    if let Some(e) = self.intro(t, sc, d) {
                        return e;
                    }
                }
            }
        }
        self.leaf(t, sc)
    }

    fn call(&mut self, f: usize, sc: &Sc, d: usize) -> E {
        let ps = self.p.funcs[f].ps.clone();
        let rec = matches!(&self.p.funcs[f].body, E::If(c, ..) if matches!(&**c, E::Lt(a, _) if matches!(&**a, E::Var(v) if Some(*v) == ps.first().map(|p| p.0))));
        let mut a: Vec<E> = vec![];
        for (i, (_, t)) in ps.iter().enumerate() {
            a.push(if rec && i == 0 { E::Int(self.r.below(5) as i32) } else { self.expr(t, sc, d) });
        }
        E::Call(f, a)
    }

    fn intro(&mut self, t: &Ty, sc: &Sc, d: usize) -> Option<E> {
        Some(match t {
            Ty::I => match self.r.below(4) {
                0 => E::Out(Rc::new(self.expr(t, sc, d)), Ty::I),
                1 => E::In(self.r.below(16) as u32),
                _ => {
                    let o = *self.r.pick(&['+', '-', '*']);
                    E::Bin(o, Rc::new(self.expr(t, sc, d)), Rc::new(self.expr(t, sc, d)), Ty::I)
                }
            },
            Ty::F => match self.r.below(3) {
                0 => E::Out(Rc::new(self.expr(t, sc, d)), Ty::F),
                _ => {
                    let o = *self.r.pick(&['+', '-', '*']);
                    E::Bin(o, Rc::new(self.expr(t, sc, d)), Rc::new(self.expr(t, sc, d)), Ty::F)
                }
            },
            Ty::B => E::Lt(Rc::new(self.expr(&Ty::I, sc, d)), Rc::new(self.expr(&Ty::I, sc, d))),
            Ty::U => {
                let t = self.scalar();
                let v = self.fresh();
                E::Let(v, Rc::new(E::Out(Rc::new(self.expr(&t, sc, d)), t)), Rc::new(E::Unit))
            }
            Ty::Fn(s) => {
                if self.r.chance(15) {
                    let fs: Vec<usize> = (0..self.p.funcs.len())
                        .filter(|f| {
                            let f = &self.p.funcs[*f];
                            // a function needing evidence is no value of a type that has none
                            f.r == s.r && f.ps.len() == s.ps.len() && f.ps.iter().zip(&s.ps).all(|(a, b)| a.1 == *b) && (!f.ev || s.ev)
                        })
                        .collect();
                    if !fs.is_empty() {
                        return Some(E::Name(*self.r.pick(&fs), s.clone()));
                    }
                }
                self.lam(s, sc, d)
            }
            Ty::Rec(s, k) => {
                let f = self.expr(&Ty::Fn(s.clone()), sc, d);
                let n = self.expr(&Ty::I, sc, d.min(2));
                E::New(s.clone(), *k, Rc::new(f), Rc::new(n))
            }
        })
    }

    fn lam(&mut self, s: &Rc<Sig>, sc: &Sc, d: usize) -> E {
        let ps: Vec<usize> = s.ps.iter().map(|_| self.fresh()).collect();
        let mut inner = sc.clone();
        inner.extend(ps.iter().zip(&s.ps).map(|(v, t)| (*v, t.clone())));
        let old = std::mem::replace(&mut self.has_ev, s.ev);
        let mut b = self.expr(&s.r, &inner, d);
        if self.wide && self.r.chance(30) {
            // reports many of the variables around it
            let mut vs: Vec<(usize, Ty)> = inner.iter().filter(|x| matches!(x.1, Ty::I | Ty::F | Ty::B)).cloned().collect();
            self.r.shuffle(&mut vs);
            vs.truncate(4 + self.r.below(7));
            for (v, t) in vs {
                let w = self.fresh();
                b = E::Let(w, Rc::new(E::Out(Rc::new(E::Var(v)), t)), Rc::new(b));
            }
        }
        self.has_ev = old;
        E::Lam(s.clone(), ps, Rc::new(b))
    }

    fn leaf(&mut self, t: &Ty, sc: &Sc) -> E {
        match t {
            Ty::I => match self.r.below(3) {
                0 => E::In(self.r.below(16) as u32),
                _ => E::Int(*self.r.pick(&[0, 1, 2, 3, 7, -1, 100, 65535, i32::MAX, i32::MIN])),
            },
            Ty::F => E::Flt(*self.r.pick(&[0.0, 1.5, -2.25, 65536.125, -0.0, 3.0])),
            Ty::B => E::Bool(self.r.chance(50)),
            Ty::U => E::Unit,
            Ty::Fn(s) => self.lam(s, sc, 0),
            Ty::Rec(s, k) => {
                let f = self.lam(s, sc, 0);
                E::New(s.clone(), *k, Rc::new(f), Rc::new(E::Int(5)))
            }
        }
    }
}

pub fn free(e: &E, out: &mut Vec<usize>) {
    match e {
        E::Int(_) | E::Flt(_) | E::Bool(_) | E::Unit | E::In(_) | E::Name(..) => {}
        E::Var(v) => {
            if !out.contains(v) {
                out.push(*v)
            }
        }
        E::Bin(_, a, b, _) | E::Lt(a, b) | E::New(_, _, a, b) => {
            free(a, out);
            free(b, out);
        }
        E::Let(_, a, b) => {
            free(a, out);
            free(b, out);
        }
        E::Out(a, _) | E::GetF(_, _, a) | E::GetN(_, _, a) | E::Gen(_, a) => free(a, out),
        E::If(a, b, c, _) => {
            free(a, out);
            free(b, out);
            free(c, out);
        }
        E::Lam(_, _, b) => free(b, out),
        E::App(_, f, a) => {
            free(f, out);
            a.iter().for_each(|x| free(x, out));
        }
        E::Call(_, a) => a.iter().for_each(|x| free(x, out)),
    }
}

// --- reference evaluator

#[derive(Clone)]
pub enum V {
    I(i32),
    F(f64),
    B(bool),
    U,
    C(Rc<(Vec<usize>, E, Env)>),
    N(usize),
    R(Rc<(V, V)>),
}

#[derive(Clone, Default)]
pub struct Env(Option<Rc<(usize, V, Env)>>);

impl Env {
    fn get(&self, v: usize) -> V {
        let mut e = self;
        loop {
            let n = e.0.as_ref().unwrap_or_else(|| panic!("harness: unbound variable {v}"));
            if n.0 == v {
                return n.1.clone();
            }
            e = &n.2;
        }
    }
    fn bind(&self, v: usize, x: V) -> Env {
        Env(Some(Rc::new((v, x, self.clone()))))
    }
}

pub struct M<'a> {
    p: &'a Prog,
    inputs: Vec<u64>,
    pub events: Vec<Event>,
    fuel: u64,
    depth: u32,
    pub made: u64,
    pub called: u64,
    pub named: u64,
    pub deepest: u64,
}

pub fn reference<'a>(p: &'a Prog, inputs: &[u64]) -> Option<M<'a>> {
    let mut m = M { p, inputs: inputs.to_vec(), events: vec![], fuel: 20_000, depth: 0, made: 0, called: 0, named: 0, deepest: 0 };
    let main = p.main.clone().unwrap();
    m.eval(&main, &Env::default())?;
    Some(m)
}

impl M<'_> {
    fn eval(&mut self, e: &E, env: &Env) -> Option<V> {
        self.fuel = self.fuel.checked_sub(1)?;
        Some(match e {
            E::Int(i) => V::I(*i),
            E::Flt(f) => V::F(*f),
            E::Bool(b) => V::B(*b),
            E::Unit => V::U,
            E::Var(v) => env.get(*v),
            E::In(k) => V::I(self.inputs[*k as usize & 15] as i32),
            E::Bin(o, a, b, _) => match (self.eval(a, env)?, self.eval(b, env)?) {
                (V::I(a), V::I(b)) => V::I(match o {
                    '+' => a.wrapping_add(b),
                    '-' => a.wrapping_sub(b),
                    _ => a.wrapping_mul(b),
                }),
                (V::F(a), V::F(b)) => V::F(match o {
                    '+' => a + b,
                    '-' => a - b,
                    _ => a * b,
                }),
                _ => panic!("harness: operands"),
            },
            E::Lt(a, b) => match (self.eval(a, env)?, self.eval(b, env)?) {
                (V::I(a), V::I(b)) => V::B(a < b),
                _ => panic!("harness: operands"),
            },
            E::Out(a, _) => {
                let v = self.eval(a, env)?;
                let (t, s) = match &v {
                    V::I(i) => ("i32", format!("{:x}", *i as u32)),
                    V::F(f) if f.is_nan() => ("f64", "7ff8000000000000".into()),
                    V::F(f) => ("f64", format!("{:x}", f.to_bits())),
                    V::B(b) => ("i32", format!("{:x}", *b as u32)),
                    _ => panic!("harness: record"),
                };
                self.events.push(Event { name: format!("v_rec_{t}"), args: vec![format!("{t}:{s}")] });
                v
            }
            E::Let(v, a, b) => {
                let x = self.eval(a, env)?;
                self.eval(b, &env.bind(*v, x))?
            }
            E::If(c, a, b, _) => match self.eval(c, env)? {
                V::B(true) => self.eval(a, env)?,
                _ => self.eval(b, env)?,
            },
            E::Lam(_, ps, b) => {
                self.made += 1;
                V::C(Rc::new((ps.clone(), (**b).clone(), env.clone())))
            }
            E::Name(f, _) => {
                self.named += 1;
                V::N(*f)
            }
            E::App(_, f, a) => {
                let f = self.eval(f, env)?;
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x, env)?);
                }
                self.called += 1;
                match f {
                    V::C(c) => {
                        let mut e = c.2.clone();
                        for (p, x) in c.0.iter().zip(v) {
                            e = e.bind(*p, x);
                        }
                        self.enter(&c.1, &e)?
                    }
                    V::N(f) => self.named_call(f, v)?,
                    _ => panic!("harness: callee"),
                }
            }
            E::Call(f, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x, env)?);
                }
                self.named_call(*f, v)?
            }
            E::New(_, _, a, b) => V::R(Rc::new((self.eval(a, env)?, self.eval(b, env)?))),
            E::GetF(_, _, a) => match self.eval(a, env)? {
                V::R(r) => r.0.clone(),
                _ => panic!("harness: record"),
            },
            E::GetN(_, _, a) => match self.eval(a, env)? {
                V::R(r) => r.1.clone(),
                _ => panic!("harness: record"),
            },
            E::Gen(t, a) => match (t, self.eval(a, env)?) {
                // boxed numbers hold 31 bits on one of the targets
                (Ty::I, V::I(i)) => V::I(i & MASK),
                (_, v) => v,
            },
        })
    }

    fn named_call(&mut self, f: usize, v: Vec<V>) -> Option<V> {
        let f = &self.p.funcs[f];
        let mut e = Env::default();
        for ((p, _), x) in f.ps.iter().zip(v) {
            e = e.bind(*p, x);
        }
        let b = &f.body;
        self.enter(b, &e)
    }

    fn enter(&mut self, b: &E, e: &Env) -> Option<V> {
        if self.depth > 150 {
            return None;
        }
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth as u64);
        let r = self.eval(b, e);
        self.depth -= 1;
        r
    }
}

const MASK: i32 = 0xffff;
const ANY: &str = "tribute_rt.anyref";

// --- emission

pub fn emit(p: &Prog) -> String {
    let mut e = Emit { p, b: String::new(), n: 0, wrap: String::new(), wn: 0, al: Default::default() };
    e.module();
    let defs: String = e.al.borrow().iter().map(|(n, d)| format!("{n} = {d}\n")).collect();
    e.b.replacen("!!ALIASES\n", &defs, 1)
}

struct Emit<'a> {
    p: &'a Prog,
    b: String,
    n: usize,
    wrap: String,
    wn: usize,
    al: std::cell::RefCell<Vec<(String, String)>>,
}

#[derive(Clone, Default)]
struct Sco {
    vars: Vec<(usize, String, String)>,
    ev: Option<String>,
}

impl Emit<'_> {
    /// the type the front end gives to a value of the type
    fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::I => "core.i32".into(),
            Ty::F => "core.f64".into(),
            Ty::B => "core.i1".into(),
            Ty::U => "core.nil".into(),
            Ty::Fn(s) => self.alias("F", format!("core.func({})", self.sig(s, false))),
            Ty::Rec(..) => ANY.into(),
        }
    }

    fn sig(&self, s: &Sig, hidden: bool) -> String {
        let mut v = vec![self.ty(&s.r)];
        if hidden && s.ev {
            v.push("!ev".into());
        }
        v.extend(s.ps.iter().map(|t| self.ty(t)));
        v.join(", ")
    }

    fn clo(&self, s: &Sig) -> String {
        self.alias("C", format!("closure.closure(core.func({}))", self.sig(s, true)))
    }

    fn rec(&self, s: &Rc<Sig>, erased: bool) -> String {
        let f = if erased { ANY.to_string() } else { self.ty(&Ty::Fn(s.clone())) };
        let n = if erased { "Cell".to_string() } else { format!("Holds_{}", &f[1..]) };
        self.alias("R", format!("adt.struct() {{fields = [[@f, {f}], [@n, core.i32]], name = @{n}}}"))
    }

    fn alias(&self, k: &str, d: String) -> String {
        let mut al = self.al.borrow_mut();
        if let Some(a) = al.iter().find(|a| a.1 == d) {
            return a.0.clone();
        }
        let n = format!("!{k}{}", al.len());
        al.push((n.clone(), d));
        n
    }

    fn v(&mut self) -> String {
        self.n += 1;
        format!("%{}", self.n)
    }

    fn op(&mut self, rhs: String) -> String {
        let v = self.v();
        writeln!(self.b, "{v} = {rhs}").unwrap();
        v
    }

    fn line(&mut self, s: String) {
        writeln!(self.b, "{s}").unwrap();
    }

    fn conv(ev: bool) -> &'static str {
        if ev { "tribute.calling_convention = 1" } else { "tribute.calling_convention = 0" }
    }

    /// value and its IR type, adapted to the IR type of `t` as the front end does
    fn fit(&mut self, v: (String, String), want: &str) -> String {
        if v.1 == want || (v.1.starts_with("!C") && want.starts_with("!F")) || (v.1.starts_with("!F") && want.starts_with("!F")) {
            return v.0;
        }
        self.op(format!("core.unrealized_conversion_cast {} : {want}", v.0))
    }

    fn module(&mut self) {
        self.line("core.module @clo {".into());
        self.line("!_Marker = adt.struct() {fields = [[@ability_id, core.i32], [@prompt_tag, core.i32], [@tr_dispatch_fn, core.ptr], [@handler_dispatch, core.ptr]], name = @_Marker}".into());
        self.line("!ev = core.array(!_Marker)".into());
        self.line("!!ALIASES".into());
        self.line("func.func @v_in_i32(%0: core.i32) -> core.i32 attributes {abi = \"C\"} { func.unreachable }".into());
        for t in ["i32", "f64"] {
            self.line(format!("func.func @v_rec_{t}(%0: core.{t}) -> core.nil attributes {{abi = \"C\"}} {{ func.unreachable }}"));
        }
        self.line(format!("func.func @generic(%0: {ANY}) -> {ANY} attributes {{tribute.calling_convention = 0}} {{ func.return %0 }}"));
        for (i, f) in self.p.funcs.iter().enumerate() {
            self.n = 0;
            let mut sc = Sco::default();
            let mut ps = vec![];
            if f.ev {
                let e = self.v();
                ps.push(format!("{e}: !ev"));
                sc.ev = Some(e);
            }
            for (v, t) in &f.ps {
                let (x, ty) = (self.v(), self.ty(t));
                ps.push(format!("{x}: {ty}"));
                sc.vars.push((*v, x, ty));
            }
            let rt = self.ty(&f.r);
            self.line(format!("func.func @f{i}({}) -> {rt} attributes {{{}}} {{", ps.join(", "), Self::conv(f.ev)));
            let r = self.expr(&f.body, &sc);
            let r = self.fit(r, &rt);
            self.line(format!("func.return {r}\n}}"));
        }
        self.n = 0;
        self.line("func.func @main() -> core.nil attributes {tribute.calling_convention = 0} {".into());
        let m = self.p.main.clone().unwrap();
        self.expr(&m, &Sco::default());
        let r = self.op("arith.const {value = unit} : core.nil".into());
        self.line(format!("func.return {r}\n}}"));
        let w = std::mem::take(&mut self.wrap);
        self.line(w);
        self.line("}".into());
    }

    fn evidence(&mut self, sc: &Sco) -> String {
        match &sc.ev {
            Some(e) => e.clone(),
            None => self.op("adt.ref_null {type = !ev} : !ev".into()),
        }
    }

    fn expr(&mut self, e: &E, sc: &Sco) -> (String, String) {
        match e {
            E::Int(i) => (self.op(format!("arith.const {{value = {i}}} : core.i32")), "core.i32".into()),
            E::Flt(f) => (self.op(format!("arith.const {{value = {f:?}}} : core.f64")), "core.f64".into()),
            E::Bool(b) => (self.op(format!("arith.const {{value = {b}}} : core.i1")), "core.i1".into()),
            E::Unit => (self.op("arith.const {value = unit} : core.nil".into()), "core.nil".into()),
            E::Var(v) => {
                let x = sc.vars.iter().rev().find(|x| x.0 == *v).unwrap_or_else(|| panic!("harness: variable {v}"));
                (x.1.clone(), x.2.clone())
            }
            E::In(k) => {
                let c = self.op(format!("arith.const {{value = {k}}} : core.i32"));
                (self.op(format!("func.call {c} {{callee = @v_in_i32}} : core.i32")), "core.i32".into())
            }
            E::Bin(o, a, b, t) => {
                let (x, y) = (self.expr(a, sc).0, self.expr(b, sc).0);
                let n = match o {
                    '+' => "add",
                    '-' => "sub",
                    _ => "mul",
                };
                if *t == Ty::I {
                    (self.op(format!("arith.{n}i {x}, {y} : core.i32")), "core.i32".into())
                } else {
                    (self.op(format!("arith.{n}f {x}, {y} : core.f64")), "core.f64".into())
                }
            }
            E::Lt(a, b) => {
                let (x, y) = (self.expr(a, sc).0, self.expr(b, sc).0);
                (self.op(format!("arith.cmpi {x}, {y} {{predicate = @slt}} : core.i1")), "core.i1".into())
            }
            E::Out(a, t) => {
                let x = self.expr(a, sc);
                match t {
                    Ty::I => self.op(format!("func.call {} {{callee = @v_rec_i32}} : core.nil", x.0)),
                    Ty::F => self.op(format!("func.call {} {{callee = @v_rec_f64}} : core.nil", x.0)),
                    _ => {
                        let r = self.v();
                        self.line(format!("{r} = scf.if {} : core.i32 {{", x.0));
                        let c = self.op("arith.const {value = 1} : core.i32".into());
                        self.line(format!("scf.yield {c}\n}} {{"));
                        let c = self.op("arith.const {value = 0} : core.i32".into());
                        self.line(format!("scf.yield {c}\n}}"));
                        self.op(format!("func.call {r} {{callee = @v_rec_i32}} : core.nil"))
                    }
                };
                x
            }
            E::Let(v, a, b) => {
                let x = self.expr(a, sc);
                let mut sc = sc.clone();
                sc.vars.push((*v, x.0, x.1));
                self.expr(b, &sc)
            }
            E::If(c, a, b, t) => {
                let x = self.expr(c, sc).0;
                let r = self.v();
                let ty = self.ty(t);
                self.line(format!("{r} = scf.if {x} : {ty} {{"));
                let y = self.expr(a, sc);
                let y = self.fit(y, &ty);
                self.line(format!("scf.yield {y}\n}} {{"));
                let y = self.expr(b, sc);
                let y = self.fit(y, &ty);
                self.line(format!("scf.yield {y}\n}}"));
                (r, ty)
            }
            E::Lam(s, ps, b) => {
                let mut fv = vec![];
                free(b, &mut fv);
                let mut caps: Vec<String> = vec![];
                for (i, x) in sc.vars.iter().enumerate() {
                    let shadowed = sc.vars[i + 1..].iter().any(|y| y.0 == x.0);
                    if fv.contains(&x.0) && !ps.contains(&x.0) && !shadowed && !caps.contains(&x.1) {
                        caps.push(x.1.clone());
                    }
                }
                let mut inner = sc.clone();
                inner.ev = None;
                let mut params = vec![];
                if s.ev {
                    let e = self.v();
                    params.push(format!("{e}: !ev"));
                    inner.ev = Some(e);
                }
                for (p, t) in ps.iter().zip(&s.ps) {
                    let (x, ty) = (self.v(), self.ty(t));
                    params.push(format!("{x}: {ty}"));
                    inner.vars.push((*p, x, ty));
                }
                let r = self.v();
                let rt = self.ty(&s.r);
                let caps = if caps.is_empty() { String::new() } else { format!(" [{}]", caps.join(", ")) };
                self.line(format!("{r} = closure.lambda({}) -> {rt} {{{}}}{caps} {{", params.join(", "), Self::conv(s.ev)));
                let x = self.expr(b, &inner);
                let x = self.fit(x, &rt);
                self.line(format!("func.return {x}\n}}"));
                (r, self.clo(s))
            }
            E::App(s, f, a) => {
                let f = self.expr(f, sc);
                let mut args: Vec<(String, String)> = a.iter().map(|x| self.expr(x, sc)).collect();
                let mut out = vec![];
                if s.ev {
                    out.push(self.evidence(sc));
                }
                for (x, t) in args.drain(..).zip(&s.ps) {
                    let ty = self.ty(t);
                    out.push(self.fit(x, &ty));
                }
                let c = self.clo(s);
                let f = self.fit(f, &c);
                out.insert(0, f);
                let rt = self.ty(&s.r);
                (self.op(format!("func.call_indirect {} {{{}}} : {rt}", out.join(", "), Self::conv(s.ev))), rt)
            }
            E::Call(f, a) => {
                let d = &self.p.funcs[*f];
                let args: Vec<(String, String)> = a.iter().map(|x| self.expr(x, sc)).collect();
                let mut out = vec![];
                if d.ev {
                    out.push(self.evidence(sc));
                }
                for (x, (_, t)) in args.into_iter().zip(&d.ps) {
                    let ty = self.ty(t);
                    out.push(self.fit(x, &ty));
                }
                let rt = self.ty(&d.r);
                (self.op(format!("func.call {} {{callee = @f{f}, {}}} : {rt}", out.join(", "), Self::conv(d.ev))), rt)
            }
            E::Name(f, s) => {
                let d = &self.p.funcs[*f];
                let (mut ps, mut args) = (vec![], vec![]);
                let mut k = 0;
                if s.ev {
                    ps.push("%0: !ev".to_string());
                    if d.ev {
                        args.push("%0".to_string());
                    }
                    k = 1;
                }
                ps.push(format!("%{k}: {ANY}"));
                for (i, (_, t)) in d.ps.iter().enumerate() {
                    ps.push(format!("%{}: {}", k + 1 + i, self.ty(t)));
                    args.push(format!("%{}", k + 1 + i));
                }
                let n = k + 1 + d.ps.len();
                let w = self.wn;
                self.wn += 1;
                let rt = self.ty(&d.r);
                writeln!(
                    self.wrap,
                    "func.func @w{w}({}) -> {rt} attributes {{{}}} {{ %{n} = func.call {} {{callee = @f{f}, {}}} : {rt} func.return %{n} }}",
                    ps.join(", "), Self::conv(s.ev), args.join(", "), Self::conv(d.ev)
                )
                .unwrap();
                let null = self.op(format!("adt.ref_null {{type = {ANY}}} : {ANY}"));
                let c = self.clo(s);
                (self.op(format!("closure.new {null} {{func_ref = @w{w}, {}}} : {c}", Self::conv(s.ev))), c)
            }
            E::New(s, k, a, b) => {
                let f = self.expr(a, sc);
                let n = self.expr(b, sc).0;
                let want = if *k { ANY.to_string() } else { self.ty(&Ty::Fn(s.clone())) };
                let f = self.fit(f, &want);
                let t = self.rec(s, *k);
                (self.op(format!("adt.struct_new {f}, {n} {{type = {t}}} : {ANY}")), ANY.into())
            }
            E::GetF(s, k, a) => {
                let x = self.expr(a, sc).0;
                let t = self.rec(s, *k);
                let want = self.ty(&Ty::Fn(s.clone()));
                let ft = if *k { ANY.to_string() } else { want.clone() };
                let f = self.op(format!("adt.struct_get {x} {{field = 0, type = {t}}} : {ft}"));
                (self.fit((f, ft), &want), want)
            }
            E::GetN(s, k, a) => {
                let x = self.expr(a, sc).0;
                let t = self.rec(s, *k);
                (self.op(format!("adt.struct_get {x} {{field = 1, type = {t}}} : core.i32")), "core.i32".into())
            }
            E::Gen(t, a) => {
                let mut x = self.expr(a, sc);
                if *t == Ty::I {
                    let m = self.op(format!("arith.const {{value = {MASK}}} : core.i32"));
                    x.0 = self.op(format!("arith.and {}, {m} : core.i32", x.0));
                }
                let x = self.fit(x, ANY);
                let r = self.op(format!("func.call {x} {{callee = @generic, tribute.calling_convention = 0}} : {ANY}"));
                let ty = self.ty(t);
                (self.fit((r, ANY.into()), &ty), ty)
            }
        }
    }
}
