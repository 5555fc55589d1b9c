//! Programs with effect handlers in direct style: generator, reference evaluator, and the
//! lowering the compiler's front end performs on them (continuation-passing IR text).
use crate::interp::Event;
use crate::rng::Rng;
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    I,
    F,
    B,
    N,
    /// a closure with the given signature
    C(usize),
}

#[derive(Clone, Debug)]
pub struct OpDecl {
    pub ability: usize,
    pub name: String,
    /// may capture the continuation (`op`), or answers in place (`fn`)
    pub general: bool,
    pub params: Vec<T>,
    pub result: T,
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub params: Vec<T>,
    pub result: T,
    pub eff: Vec<bool>,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i64),
    Flt(f64),
    Bool(bool),
    Nil,
    Var(usize, T),
    In(u32),
    Bin(char, Rc<E>, Rc<E>, T),
    Lt(Rc<E>, Rc<E>),
    Rec(Rc<E>, T),
    Let(usize, T, Rc<E>, Rc<E>),
    If(Rc<E>, Rc<E>, Rc<E>, T),
    Perform(usize, Vec<E>),
    FnOp(usize, Vec<E>),
    Call(usize, Vec<E>),
    CallC(usize, usize, Vec<E>),
    Lam(usize, Vec<usize>, Rc<E>),
    Handle(Rc<H>),
    /// a handle closed in place, inside code that is not in continuation-passing form
    HandleSrc(Rc<H>),
    Resume(Rc<E>, T),
}

#[derive(Debug)]
pub struct H {
    pub body: E,
    pub ty: T,
    pub dov: usize,
    pub dob: E,
    pub arms: Vec<Arm>,
    pub abilities: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Arm {
    pub op: usize,
    pub params: Vec<usize>,
    pub body: E,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Conv {
    Direct,
    Evidence,
    Cps,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub params: Vec<(usize, T)>,
    pub result: T,
    pub conv: Conv,
    pub eff: Vec<bool>,
    /// smallest ability index handled inside (transitively)
    pub minh: usize,
    /// abilities whose handlers completed normally before the function's own continuation runs
    pub leak: u32,
    pub body: E,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    /// the first two abilities are instances of one parameterised ability
    pub same: bool,
    pub abilities: usize,
    pub ops: Vec<OpDecl>,
    pub sigs: Vec<Sig>,
    pub funcs: Vec<Func>,
    pub main: Option<E>,
}

// ---------------------------------------------------------------------------
// generator

const NOH: usize = 99;

#[derive(Clone)]
struct Sc {
    vars: Vec<(usize, T)>,
    avail: Vec<bool>,
    lo: usize,
    cps: bool,
    resume: Option<(T, T)>,
}

impl Sc {
    fn strip(&mut self, mask: u32) {
        for a in 0..self.avail.len() {
            if mask >> a & 1 != 0 {
                self.avail[a] = false;
            }
        }
    }
}

pub struct Gen<'a> {
    r: &'a mut Rng,
    p: Prog,
    next: usize,
    budget: i64,
    /// percentage applied to every budget
    scale: i64,
    /// abilities handled in code generated since the last reset
    minh: usize,
    fn_ops: bool,
    /// runner function of an ability, if it has one
    runner: Vec<Option<(usize, usize)>>,
    max_fn: usize,
    loop_at: Option<usize>,
    /// source-level control: an arm's resumption is never put into a closure
    control: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        Gen { r, p: Prog::default(), next: 0, budget: 0, scale: 100, minh: NOH, fn_ops: true, runner: vec![], max_fn: 0, loop_at: None, control: false }
    }

    pub fn control(mut self) -> Self {
        self.control = true;
        self
    }

    fn var(&mut self) -> usize {
        self.next += 1;
        self.next
    }

    fn scalar(&mut self) -> T {
        *self.r.pick(&[T::I, T::I, T::I, T::F, T::B])
    }

    pub fn program(mut self) -> Prog {
        let n = if self.r.chance(8) { 5 + self.r.below(3) } else { 1 + self.r.below(4) };
        self.scale = *self.r.pick(&[12, 12, 25, 25, 50, 50, 75]);
        self.p.abilities = n;
        self.fn_ops = self.r.chance(70);
        self.p.same = n > 1 && !self.control && self.r.chance(25);
        for a in 0..n {
            for i in 0..1 + self.r.below(3) {
                let general = !self.fn_ops || self.r.chance(65);
                let k = if self.r.chance(12) { 4 + self.r.below(4) } else { self.r.below(4) };
                let params = (0..k).map(|_| self.scalar()).collect();
                let result = if self.r.chance(20) { T::N } else { self.scalar() };
                self.p.ops.push(OpDecl { ability: a, name: if self.p.same && a == 1 { format!("oq{i}") } else { format!("op{i}") }, general, params, result });
            }
        }
        self.runner = vec![None; n];
        // general closure signatures
        for _ in 0..self.r.below(3) {
            let eff = (0..n).map(|_| self.r.chance(50)).collect();
            let k = if self.r.chance(15) { 3 + self.r.below(5) } else { self.r.below(3) };
            let params = (0..k).map(|_| self.scalar()).collect();
            let result = self.scalar();
            self.p.sigs.push(Sig { params, result, eff });
        }
        let nf = 1 + self.r.below(5);
        for i in 0..nf {
            let f = self.func(i);
            self.p.funcs.push(f);
            self.max_fn = self.p.funcs.len();
        }
        for a in 0..n {
            if !self.control && self.r.chance(50) && self.p.ops.iter().any(|o| o.ability == a && o.general) {
                self.runner_fn(a);
                self.max_fn = self.p.funcs.len();
            }
        }
        if self.r.chance(if self.control { 15 } else { 60 }) {
            self.loop_fn();
        }
        for i in 0..self.r.below(3) {
            let f = self.func(100 + i);
            self.p.funcs.push(f);
            self.max_fn = self.p.funcs.len();
        }
        self.budget = (120 + self.r.below(120) as i64) * self.scale / 100;
        let sc = Sc { vars: vec![], avail: vec![false; n], lo: 0, cps: false, resume: None };
        let k = 1 + self.r.below(3);
        let main = self.seq(&sc, k);
        self.p.main = Some(main);
        self.p
    }

    /// several recorded computations in sequence, ending in nil
    fn seq(&mut self, sc: &Sc, k: usize) -> E {
        let mut sc = sc.clone();
        let mut lets = vec![];
        for _ in 0..k {
            let t = self.scalar();
            let e = if self.r.chance(80) { self.handle_src(&sc, t, 3) } else { self.direct(&sc, t, 4) };
            let v = self.var();
            lets.push((v, t, e));
            sc.vars.push((v, t));
            let w = self.var();
            lets.push((w, t, E::Rec(Rc::new(E::Var(v, t)), t)));
        }
        let mut e = E::Nil;
        for (v, t, x) in lets.into_iter().rev() {
            e = E::Let(v, t, Rc::new(x), Rc::new(e));
        }
        e
    }

    fn func(&mut self, _i: usize) -> Func {
        let n = self.p.abilities;
        let conv = *self.r.pick(&[Conv::Cps, Conv::Cps, Conv::Cps, Conv::Evidence, Conv::Direct]);
        let often = if self.control { 25 } else { 60 };
        let mut eff: Vec<bool> = (0..n).map(|_| self.r.chance(often)).collect();
        if conv == Conv::Direct {
            eff = vec![false; n];
        }
        let k = if self.r.chance(12) { 4 + self.r.below(5) } else { self.r.below(4) };
        let mut params: Vec<(usize, T)> = (0..k).map(|_| (self.var(), self.scalar())).collect();
        if conv == Conv::Cps && !self.p.sigs.is_empty() && self.r.chance(50) {
            let s = self.r.below(self.p.sigs.len());
            // the closure can be called wherever its own effects are available
            for (a, b) in self.p.sigs[s].eff.clone().iter().enumerate() {
                eff[a] |= *b;
            }
            let v = self.var();
            let at = self.r.below(params.len() + 1);
            params.insert(at, (v, T::C(s)));
        }
        let result = self.scalar();
        self.budget = (25 + self.r.below(40) as i64) * self.scale / 100;
        self.minh = NOH;
        let sc = Sc { vars: params.clone(), avail: eff.clone(), lo: 0, cps: conv == Conv::Cps, resume: None };
        let body = if conv == Conv::Cps { self.comp(&sc, result, 4) } else { self.direct(&sc, result, 4) };
        let leak = self.leak(&body);
        Func { params, result, conv, eff, minh: self.minh, leak, body }
    }

    /// `run_a(comp, s)`: a handler whose arms install themselves again around the resumption
    fn runner_fn(&mut self, a: usize) {
        let n = self.p.abilities;
        let mut eff: Vec<bool> = (0..n).map(|b| b < a && self.r.chance(40)).collect();
        let outer = eff.clone();
        let mut seff = eff.clone();
        seff[a] = true;
        let sig = self.p.sigs.len();
        self.p.sigs.push(Sig { params: vec![], result: T::I, eff: seff });
        let (c, s) = (self.var(), self.var());
        let me = self.p.funcs.len();
        self.budget = 40;
        self.minh = a;
        let ops: Vec<usize> = (0..self.p.ops.len()).filter(|o| self.p.ops[*o].ability == a).collect();
        let mut arms = vec![];
        for o in ops {
            let d = self.p.ops[o].clone();
            let params: Vec<usize> = d.params.iter().map(|_| self.var()).collect();
            let mut sc = Sc { vars: vec![(s, T::I)], avail: outer.clone(), lo: a, cps: d.general, resume: None };
            sc.vars.extend(params.iter().copied().zip(d.params.iter().copied()));
            let body = if !d.general {
                self.direct(&sc, d.result, 2)
            } else if self.r.chance(15) {
                self.direct(&sc, T::I, 2)
            } else {
                let arg = self.direct(&sc, d.result, 2);
                let next = self.direct(&sc, T::I, 2);
                let lam = E::Lam(sig, vec![], Rc::new(E::Resume(Rc::new(arg), T::I)));
                E::Call(me, vec![lam, next])
            };
            arms.push(Arm { op: o, params, body });
        }
        let x = self.var();
        let sc = Sc { vars: vec![(s, T::I), (x, T::I)], avail: outer.clone(), lo: 0, cps: true, resume: None };
        let dob = self.direct(&sc, T::I, 2);
        let body = E::Handle(Rc::new(H { body: E::CallC(c, sig, vec![]), ty: T::I, dov: x, dob, arms, abilities: vec![a] }));
        eff[a] = false;
        self.p.funcs.push(Func { params: vec![(c, T::C(sig)), (s, T::I)], result: T::I, conv: Conv::Cps, eff, minh: a, leak: 1 << a, body });
        self.runner[a] = Some((me, sig));
    }

    /// `loop(n, acc)`: performs an operation per iteration
    fn loop_fn(&mut self) {
        let Some(o) = (0..self.p.ops.len()).find(|o| self.p.ops[*o].general && self.p.ops[*o].result == T::I) else { return };
        let d = self.p.ops[o].clone();
        let me = self.p.funcs.len();
        let (n, acc, x) = (self.var(), self.var(), self.var());
        self.budget = 30;
        self.minh = NOH;
        let mut eff = vec![false; self.p.abilities];
        eff[d.ability] = true;
        let sc = Sc { vars: vec![(n, T::I), (acc, T::I)], avail: vec![false; self.p.abilities], lo: NOH, cps: false, resume: None };
        let args = d.params.iter().map(|t| self.direct(&sc, *t, 2)).collect();
        let v = |v| Rc::new(E::Var(v, T::I));
        let body = E::If(
            Rc::new(E::Lt(v(n), Rc::new(E::Int(1)))),
            v(acc),
            Rc::new(E::Let(
                x,
                T::I,
                Rc::new(E::Perform(o, args)),
                Rc::new(E::Call(
                    me,
                    vec![
                        E::Bin('-', v(n), Rc::new(E::Int(1)), T::I),
                        E::Bin('+', v(acc), v(x), T::I),
                    ],
                )),
            )),
            T::I,
        );
        self.p.funcs.push(Func { params: vec![(n, T::I), (acc, T::I)], result: T::I, conv: Conv::Cps, eff, minh: NOH, leak: 0, body });
        self.max_fn = self.p.funcs.len();
        // only called with small counts, see `call`
        self.loop_at = Some(me);
    }

    fn pick_var(&mut self, sc: &Sc, t: T) -> Option<E> {
        let c: Vec<_> = sc.vars.iter().filter(|v| v.1 == t).copied().collect();
        if c.is_empty() {
            return None;
        }
        let (v, t) = c[self.r.below(c.len())];
        Some(E::Var(v, t))
    }

    fn leaf(&mut self, sc: &Sc, t: T) -> E {
        if t == T::N {
            return E::Nil;
        }
        if self.r.chance(75)
            && let Some(v) = self.pick_var(sc, t)
        {
            return v;
        }
        match t {
            T::I => {
                if self.r.chance(30) {
                    E::In(self.r.below(8) as u32)
                } else {
                    E::Int(self.r.range(0, 50))
                }
            }
            T::F => E::Flt(self.r.range(-8, 9) as f64 * 0.5),
            T::B => {
                if self.r.chance(70) {
                    E::Lt(Rc::new(self.leaf(sc, T::I)), Rc::new(self.leaf(sc, T::I)))
                } else {
                    E::Bool(self.r.chance(50))
                }
            }
            T::N => E::Nil,
            T::C(_) => unreachable!(),
        }
    }

    /// an expression evaluated in place
    fn direct(&mut self, sc: &Sc, t: T, d: u32) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 || t == T::N {
            let e = self.leaf(sc, t);
            return if t != T::N && self.r.chance(15) { E::Rec(Rc::new(e), t) } else { e };
        }
        match self.r.below(10) {
            0..=2 if t != T::B => {
                let o = *self.r.pick(&['+', '-', '*']);
                E::Bin(o, Rc::new(self.direct(sc, t, d - 1)), Rc::new(self.direct(sc, t, d - 1)), t)
            }
            0..=1 => E::Lt(Rc::new(self.direct(sc, T::I, d - 1)), Rc::new(self.direct(sc, T::I, d - 1))),
            3 => E::Rec(Rc::new(self.direct(sc, t, d - 1)), t),
            4 => {
                let u = self.scalar();
                let rhs = self.direct(sc, u, d - 1);
                let v = self.var();
                let mut sc = sc.clone();
                sc.vars.push((v, u));
                E::Let(v, u, Rc::new(rhs), Rc::new(self.direct(&sc, t, d - 1)))
            }
            5 => E::If(
                Rc::new(self.direct(sc, T::B, d - 1)),
                Rc::new(self.direct(sc, t, d - 1)),
                Rc::new(self.direct(sc, t, d - 1)),
                t,
            ),
            6..=7 => {
                let c: Vec<usize> = (0..self.p.ops.len())
                    .filter(|o| !self.p.ops[*o].general && self.p.ops[*o].result == t && sc.avail[self.p.ops[*o].ability])
                    .collect();
                if c.is_empty() {
                    return self.leaf(sc, t);
                }
                let o = c[self.r.below(c.len())];
                let ps = self.p.ops[o].params.clone();
                let args = ps.iter().map(|t| self.direct(sc, *t, d - 1)).collect();
                E::FnOp(o, args)
            }
            8 => {
                let c: Vec<usize> = (0..self.max_fn)
                    .filter(|f| {
                        let f = &self.p.funcs[*f];
                        f.conv != Conv::Cps && f.result == t && self.callable(f, sc)
                    })
                    .collect();
                if c.is_empty() {
                    return self.leaf(sc, t);
                }
                let f = c[self.r.below(c.len())];
                self.call(sc, f, d)
            }
            9 if !sc.cps && d >= 2 && self.budget * 100 > 10 * self.scale => self.handle_src(sc, t, d - 1),
            _ => self.leaf(sc, t),
        }
    }

    /// Abilities of handlers that may have completed before the continuation of `e` runs. The
    /// generated code never performs these afterwards (see DESIGN.md, C12: stale evidence).
    fn leak(&self, e: &E) -> u32 {
        match e {
            E::Handle(h) => h.abilities.iter().fold(self.leak(&h.dob), |m, a| m | 1 << a),
            E::Call(f, _) => self.p.funcs.get(*f).map_or(0, |f| if f.conv == Conv::Cps { f.leak } else { 0 }),
            E::Let(_, _, a, b) => self.leak(a) | self.leak(b),
            E::If(_, a, b, _) => self.leak(a) | self.leak(b),
            _ => 0,
        }
    }

    fn callable(&self, f: &Func, sc: &Sc) -> bool {
        f.eff.iter().zip(&sc.avail).all(|(e, a)| !*e || *a) && f.minh >= sc.lo
    }

    fn call(&mut self, sc: &Sc, f: usize, d: u32) -> E {
        if f < self.max_fn && self.p.funcs[f].minh < self.minh {
            self.minh = self.p.funcs[f].minh;
        }
        let ps = self.p.funcs[f].params.clone();
        let mut args: Vec<E> = vec![];
        for (_, t) in &ps {
            args.push(match t {
                T::C(s) => self.closure(sc, *s),
                t => self.direct(sc, *t, (d - 1).min(2)),
            });
        }
        if self.loop_at == Some(f) {
            args[0] = E::Int(self.r.range(0, 7));
        }
        E::Call(f, args)
    }

    fn closure(&mut self, sc: &Sc, s: usize) -> E {
        if self.r.chance(30)
            && let Some(v) = self.pick_var(sc, T::C(s))
        {
            return v;
        }
        let sig = self.p.sigs[s].clone();
        let params: Vec<usize> = sig.params.iter().map(|_| self.var()).collect();
        let mut inner = sc.clone();
        inner.vars.extend(params.iter().copied().zip(sig.params.iter().copied()));
        inner.avail = sig.eff.clone();
        inner.lo = NOH;
        inner.cps = true;
        inner.resume = None;
        let body = self.comp(&inner, sig.result, 3);
        E::Lam(s, params, Rc::new(body))
    }

    /// a computation in a continuation-passing context
    fn comp(&mut self, sc: &Sc, t: T, d: u32) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 || t == T::N {
            return self.direct(sc, t, 1);
        }
        match self.r.below(12) {
            0..=4 => {
                let u = self.scalar();
                let rhs = self.comp(sc, u, d - 1);
                let v = self.var();
                let mut sc = sc.clone();
                sc.vars.push((v, u));
                let gone = self.leak(&rhs);
                sc.strip(gone);
                E::Let(v, u, Rc::new(rhs), Rc::new(self.comp(&sc, t, d - 1)))
            }
            5 => E::If(
                Rc::new(self.direct(sc, T::B, 1)),
                Rc::new(self.comp(sc, t, d - 1)),
                Rc::new(self.comp(sc, t, d - 1)),
                t,
            ),
            6..=8 => {
                let c: Vec<usize> = (0..self.p.ops.len())
                    .filter(|o| {
                        let o = &self.p.ops[*o];
                        o.general && (o.result == t || o.result == T::N) && sc.avail[o.ability]
                    })
                    .collect();
                if c.is_empty() {
                    return self.direct(sc, t, 2);
                }
                let o = c[self.r.below(c.len())];
                let ps = self.p.ops[o].params.clone();
                let args = ps.iter().map(|t| self.direct(sc, *t, 1)).collect();
                let e = E::Perform(o, args);
                if self.p.ops[o].result == t {
                    e
                } else {
                    let v = self.var();
                    E::Let(v, T::N, Rc::new(e), Rc::new(self.comp(sc, t, d - 1)))
                }
            }
            9 => {
                let c: Vec<usize> = (0..self.max_fn)
                    .filter(|f| {
                        let f = &self.p.funcs[*f];
                        f.conv == Conv::Cps && f.result == t && self.callable(f, sc)
                    })
                    .collect();
                if c.is_empty() {
                    return self.direct(sc, t, 2);
                }
                let f = c[self.r.below(c.len())];
                self.call(sc, f, d)
            }
            10 => {
                let c: Vec<(usize, usize)> = sc
                    .vars
                    .iter()
                    .filter_map(|(v, x)| match x {
                        T::C(s)
                            if self.p.sigs[*s].result == t
                                && self.p.sigs[*s].eff.iter().zip(&sc.avail).all(|(e, a)| !*e || *a) =>
                        {
                            Some((*v, *s))
                        }
                        _ => None,
                    })
                    .collect();
                if c.is_empty() {
                    return self.direct(sc, t, 2);
                }
                let (v, s) = c[self.r.below(c.len())];
                let ps = self.p.sigs[s].params.clone();
                let args = ps.iter().map(|t| self.direct(sc, *t, 1)).collect();
                E::CallC(v, s, args)
            }
            _ => self.handle(sc, t, d - 1),
        }
    }

    fn choose_abilities(&mut self, lo: usize) -> Vec<usize> {
        let n = self.p.abilities;
        let mut v: Vec<usize> = (lo..n).collect();
        if v.is_empty() {
            return v;
        }
        self.r.shuffle(&mut v);
        let k = match self.r.below(20) {
            0..=12 => 1,
            13..=16 => 2.min(v.len()),
            17 => 3.min(v.len()),
            _ => v.len(),
        };
        v.truncate(k);
        v
    }

    fn handle(&mut self, sc: &Sc, t: T, d: u32) -> E {
        // sometimes run the body under a self-reinstalling handler instead
        if t == T::I && self.r.chance(35) {
            let c: Vec<(usize, usize)> = (0..self.p.abilities)
                .filter(|a| *a >= sc.lo)
                .filter_map(|a| self.runner[a])
                .filter(|(f, _)| self.callable(&self.p.funcs[*f], sc))
                .collect();
            if !c.is_empty() {
                let (f, _) = c[self.r.below(c.len())];
                return self.call(sc, f, 3);
            }
        }
        match self.build_handle(sc, t, d, true) {
            Some(h) => E::Handle(Rc::new(h)),
            None => self.direct(sc, t, 2),
        }
    }

    fn handle_src(&mut self, sc: &Sc, t: T, d: u32) -> E {
        match self.build_handle(sc, t, d, false) {
            Some(h) => E::HandleSrc(Rc::new(h)),
            None => self.leaf(sc, t),
        }
    }

    fn build_handle(&mut self, sc: &Sc, t: T, d: u32, open: bool) -> Option<H> {
        let abilities = self.choose_abilities(sc.lo);
        let lo = *abilities.iter().min()?;
        self.minh = self.minh.min(lo);
        let mut inner = sc.clone();
        inner.lo = lo;
        inner.cps = true;
        inner.resume = None;
        if !open {
            // only in-place operations may leave a handle that is closed in place
            for a in 0..self.p.abilities {
                if self.p.ops.iter().any(|o| o.ability == a && o.general) {
                    inner.avail[a] = false;
                }
            }
        }
        let outer = inner.avail.clone();
        for a in &abilities {
            inner.avail[*a] = true;
        }
        let mut body = self.comp(&inner, t, d + 1);
        if self.r.chance(50) {
            // make sure something of the handled ability happens
            let c: Vec<usize> = (0..self.p.ops.len())
                .filter(|o| self.p.ops[*o].general && abilities.contains(&self.p.ops[*o].ability))
                .collect();
            if !c.is_empty() {
                let o = c[self.r.below(c.len())];
                let ps = self.p.ops[o].params.clone();
                let args = ps.iter().map(|t| self.direct(&inner, *t, 1)).collect();
                let v = self.var();
                body = E::Let(v, self.p.ops[o].result, Rc::new(E::Perform(o, args)), Rc::new(body));
            }
        }
        let ops: Vec<usize> = (0..self.p.ops.len()).filter(|o| abilities.contains(&self.p.ops[*o].ability)).collect();
        let mut arms = vec![];
        for o in ops {
            let dcl = self.p.ops[o].clone();
            let params: Vec<usize> = dcl.params.iter().map(|_| self.var()).collect();
            let mut asc = sc.clone();
            asc.vars.extend(params.iter().copied().zip(dcl.params.iter().copied()));
            asc.avail = (0..self.p.abilities).map(|a| outer[a] && a < lo).collect();
            asc.lo = lo;
            asc.cps = dcl.general;
            asc.resume = None;
            let body = if dcl.general { self.arm(&asc, t, dcl.result, 2) } else { self.direct(&asc, dcl.result, 3) };
            arms.push(Arm { op: o, params, body });
        }
        self.r.shuffle(&mut arms);
        let dov = self.var();
        let mut dsc = sc.clone();
        dsc.vars.push((dov, t));
        dsc.cps = open;
        for a in &abilities {
            dsc.avail[*a] = false;
        }
        let dob = match self.r.below(3) {
            0 => E::Var(dov, t),
            1 if open => self.comp(&dsc, t, 2),
            _ => self.direct(&dsc, t, 2),
        };
        Some(H { body, ty: t, dov, dob, arms, abilities })
    }

    /// the body of an arm for a general operation; resumes at most once on every path
    fn arm(&mut self, sc: &Sc, t: T, arg: T, d: u32) -> E {
        match self.r.below(10) {
            0 => self.comp(sc, t, 2),
            1..=3 => E::Resume(Rc::new(self.direct(sc, arg, 2)), t),
            4..=5 => {
                let a = self.direct(sc, arg, 2);
                let v = self.var();
                let mut s = sc.clone();
                s.vars.push((v, t));
                E::Let(v, t, Rc::new(E::Resume(Rc::new(a), t)), Rc::new(self.comp(&s, t, 2)))
            }
            6..=7 if d > 0 => {
                let u = self.scalar();
                let mut rhs = self.comp(sc, u, 2);
                if self.leak(&rhs) != 0 {
                    rhs = self.direct(sc, u, 2);
                }
                let v = self.var();
                let mut s = sc.clone();
                s.vars.push((v, u));
                E::Let(v, u, Rc::new(rhs), Rc::new(self.arm(&s, t, arg, d - 1)))
            }
            8..=9 if d > 0 => E::If(
                Rc::new(self.direct(sc, T::B, 1)),
                Rc::new(self.arm(sc, t, arg, d - 1)),
                Rc::new(self.arm(sc, t, arg, d - 1)),
                t,
            ),
            _ => E::Resume(Rc::new(self.direct(sc, arg, 1)), t),
        }
    }
}

/// Whether evaluating `e` may suspend or leave through a continuation.
pub fn is_cps(p: &Prog, e: &E) -> bool {
    match e {
        E::Perform(..) | E::CallC(..) | E::Handle(_) | E::Resume(..) => true,
        E::Call(f, _) => p.funcs[*f].conv == Conv::Cps,
        E::Let(_, _, a, b) => is_cps(p, a) || is_cps(p, b),
        E::If(_, a, b, _) => is_cps(p, a) || is_cps(p, b),
        _ => false,
    }
}

pub fn free_vars(e: &E, out: &mut Vec<usize>, resume: &mut bool) {
    let mut add = |v: usize| {
        if !out.contains(&v) {
            out.push(v)
        }
    };
    match e {
        E::Var(v, _) => add(*v),
        E::Int(_) | E::Flt(_) | E::Bool(_) | E::Nil | E::In(_) => {}
        E::Bin(_, a, b, _) | E::Lt(a, b) | E::Let(_, _, a, b) => {
            free_vars(a, out, resume);
            free_vars(b, out, resume);
        }
        E::Rec(a, _) => free_vars(a, out, resume),
        E::Resume(a, _) => {
            *resume = true;
            free_vars(a, out, resume)
        }
        E::If(a, b, c, _) => {
            free_vars(a, out, resume);
            free_vars(b, out, resume);
            free_vars(c, out, resume);
        }
        E::Perform(_, v) | E::FnOp(_, v) | E::Call(_, v) => v.iter().for_each(|x| free_vars(x, out, resume)),
        E::CallC(f, _, v) => {
            add(*f);
            v.iter().for_each(|x| free_vars(x, out, resume))
        }
        E::Lam(_, _, b) => free_vars(b, out, resume),
        E::Handle(h) | E::HandleSrc(h) => {
            free_vars(&h.body, out, resume);
            free_vars(&h.dob, out, resume);
            // an arm's `resume` is its own
            let mut own = false;
            h.arms.iter().for_each(|a| free_vars(&a.body, out, &mut own));
        }
    }
}

// ---------------------------------------------------------------------------
// reference semantics

#[derive(Clone)]
pub enum V {
    I(i32),
    F(f64),
    B(bool),
    N,
    C(Rc<Clo>),
}

pub struct Clo {
    params: Vec<usize>,
    body: Rc<E>,
    env: Env,
}

/// What a computation hands back to the nearest enclosing delimiter.
enum Ans {
    Raw(V),
    Normal(V),
    Escape(u32, V),
}

type K = Rc<dyn Fn(&mut M, V, &Ev) -> Result<Ans, Stop>>;
type Stop = &'static str;

/// what `resume` means inside an arm
#[derive(Clone)]
struct Resumption {
    k: K,
    owner: u32,
    /// continuation of an arm's last expression
    tail: K,
    /// the operation was performed under a handler inside the owning one
    crosses: bool,
}

struct Bind {
    var: usize,
    val: V,
    up: Option<Rc<Bind>>,
}

#[derive(Clone, Default)]
pub struct Env {
    vars: Option<Rc<Bind>>,
    resume: Option<Resumption>,
}

impl Env {
    fn bind(&self, var: usize, val: V) -> Env {
        Env { vars: Some(Rc::new(Bind { var, val, up: self.vars.clone() })), resume: self.resume.clone() }
    }
    fn get(&self, var: usize) -> V {
        let mut b = self.vars.as_ref();
        while let Some(x) = b {
            if x.var == var {
                return x.val.clone();
            }
            b = x.up.as_ref();
        }
        panic!("harness: variable {var} not in scope")
    }
}

/// The handlers in force, innermost first.
#[derive(Clone, Default)]
pub struct Ev(Option<Rc<(Frame, Ev)>>);

#[derive(Clone)]
struct Frame {
    h: Rc<H>,
    env: Env,
    owner: u32,
}

impl Ev {
    fn find(&self, ability: usize) -> Option<&Frame> {
        let mut e = self;
        while let Some(x) = &e.0 {
            if x.0.h.abilities.contains(&ability) {
                return Some(&x.0);
            }
            e = &x.1;
        }
        None
    }
    fn depth(&self) -> usize {
        self.0.as_ref().map_or(0, |x| 1 + x.1.depth())
    }
}

#[derive(Default)]
pub struct Seen {
    pub performs: u64,
    pub fn_ops: u64,
    pub handles: u64,
    pub resumes: u64,
    pub escapes: u64,
    pub shadowed: u64,
    pub deepest: u64,
}

pub struct M {
    p: Rc<Prog>,
    inputs: Vec<u64>,
    pub events: Vec<Event>,
    fuel: u64,
    depth: u32,
    tags: u32,
    pub seen: Seen,
}

const MASK: i32 = 0xffff;

pub fn reference(p: &Rc<Prog>, inputs: &[u64]) -> Result<M, Stop> {
    let mut m = M { p: p.clone(), inputs: inputs.to_vec(), events: vec![], fuel: 30_000, depth: 0, tags: 0, seen: Seen::default() };
    let e = p.main.clone().unwrap();
    m.direct(&e, &Env::default(), &Ev::default())?;
    Ok(m)
}

impl M {
    fn tick(&mut self) -> Result<(), Stop> {
        if self.fuel == 0 {
            return Err("fuel");
        }
        self.fuel -= 1;
        Ok(())
    }

    fn args(&mut self, v: &[E], env: &Env, ev: &Ev) -> Result<Vec<V>, Stop> {
        v.iter().map(|e| self.direct(e, env, ev)).collect()
    }

    fn direct(&mut self, e: &E, env: &Env, ev: &Ev) -> Result<V, Stop> {
        self.tick()?;
        Ok(match e {
            E::Int(i) => V::I(*i as i32),
            E::Flt(f) => V::F(*f),
            E::Bool(b) => V::B(*b),
            E::Nil => V::N,
            E::Var(v, _) => env.get(*v),
            E::In(k) => V::I(self.inputs[*k as usize & 15] as i32 & MASK),
            E::Bin(o, a, b, _) => match (self.direct(a, env, ev)?, self.direct(b, env, ev)?) {
                (V::I(a), V::I(b)) => V::I(
                    match o {
                        '+' => a.wrapping_add(b),
                        '-' => a.wrapping_sub(b),
                        _ => a.wrapping_mul(b),
                    } & MASK,
                ),
                (V::F(a), V::F(b)) => V::F(match o {
                    '+' => a + b,
                    '-' => a - b,
                    _ => a * b,
                }),
                _ => panic!("harness: operand types"),
            },
            E::Lt(a, b) => match (self.direct(a, env, ev)?, self.direct(b, env, ev)?) {
                (V::I(a), V::I(b)) => V::B(a < b),
                _ => panic!("harness: operand types"),
            },
            E::Rec(a, _) => {
                let v = self.direct(a, env, ev)?;
                let (t, s) = match &v {
                    V::I(i) => ("i32", format!("{:x}", *i as u32)),
                    V::F(f) if f.is_nan() => ("f64", "7ff8000000000000".into()),
                    V::F(f) => ("f64", format!("{:x}", f.to_bits())),
                    V::B(b) => ("i32", format!("{:x}", *b as u32)),
                    _ => panic!("harness: record"),
                };
                self.events.push(Event { name: format!("v_rec_{t}"), args: vec![format!("{t}:{s}")] });
                v
            }
            E::Let(v, _, a, b) => {
                let x = self.direct(a, env, ev)?;
                self.direct(b, &env.bind(*v, x), ev)?
            }
            E::If(c, a, b, _) => match self.direct(c, env, ev)? {
                V::B(true) => self.direct(a, env, ev)?,
                _ => self.direct(b, env, ev)?,
            },
            E::FnOp(o, a) => {
                let a = self.args(a, env, ev)?;
                self.seen.fn_ops += 1;
                let f = ev.find(self.p.ops[*o].ability).unwrap_or_else(|| panic!("harness: unhandled operation")).clone();
                let arm = f.h.arms.iter().find(|x| x.op == *o).unwrap();
                let mut env = f.env.clone();
                for (p, x) in arm.params.iter().zip(a) {
                    env = env.bind(*p, x);
                }
                self.deeper(|m| m.direct(&arm.body, &env, ev))?
            }
            E::Call(f, a) => {
                let a = self.args(a, env, ev)?;
                let p = self.p.clone();
                let f = &p.funcs[*f];
                let mut env = Env::default();
                for ((p, _), x) in f.params.iter().zip(a) {
                    env = env.bind(*p, x);
                }
                // a function without evidence starts afresh
                let none = Ev::default();
                let ev = if f.conv == Conv::Direct { &none } else { ev };
                self.deeper(|m| m.direct(&f.body, &env, ev))?
            }
            E::HandleSrc(h) => {
                let k: K = Rc::new(|_, v, _| Ok(Ans::Raw(v)));
                match self.handle(h, env, ev, &k)? {
                    Ans::Raw(v) => v,
                    _ => panic!("harness: an answer left a closed handle"),
                }
            }
            E::Lam(_, ps, b) => V::C(Rc::new(Clo { params: ps.clone(), body: b.clone(), env: env.clone() })),
            E::Perform(..) | E::CallC(..) | E::Handle(_) | E::Resume(..) => panic!("harness: computation in place"),
        })
    }

    fn deeper<T>(&mut self, f: impl FnOnce(&mut M) -> Result<T, Stop>) -> Result<T, Stop> {
        if self.depth > 400 {
            return Err("depth");
        }
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        r
    }

    fn comp(&mut self, e: &E, env: &Env, ev: &Ev, k: &K) -> Result<Ans, Stop> {
        self.tick()?;
        if !is_cps(&self.p, e) {
            let v = self.direct(e, env, ev)?;
            return self.deeper(|m| k(m, v, ev));
        }
        match e {
            E::Let(v, _, a, b) => {
                let (v, b, env2, k2) = (*v, b.clone(), env.clone(), k.clone());
                let next: K = Rc::new(move |m, x, ev| m.comp(&b, &env2.bind(v, x), ev, &k2));
                self.deeper(|m| m.comp(a, env, ev, &next))
            }
            E::If(c, a, b, _) => match self.direct(c, env, ev)? {
                V::B(true) => self.comp(a, env, ev, k),
                _ => self.comp(b, env, ev, k),
            },
            E::Perform(o, a) => {
                let a = self.args(a, env, ev)?;
                self.seen.performs += 1;
                let f = ev.find(self.p.ops[*o].ability).unwrap_or_else(|| panic!("harness: unhandled operation")).clone();
                let arm = f.h.arms.iter().find(|x| x.op == *o).unwrap();
                let mut env = f.env.clone();
                for (p, x) in arm.params.iter().zip(a) {
                    env = env.bind(*p, x);
                }
                let owner = f.owner;
                let done: K = Rc::new(move |_, v, _| Ok(Ans::Escape(owner, v)));
                let crosses = ev.0.as_ref().is_none_or(|x| x.0.owner != owner);
                env.resume = Some(Resumption { k: k.clone(), owner, tail: done.clone(), crosses });
                self.deeper(|m| m.comp(&arm.body, &env, ev, &done))
            }
            E::Call(f, a) => {
                let a = self.args(a, env, ev)?;
                let p = self.p.clone();
                let f = &p.funcs[*f];
                let mut env = Env::default();
                for ((p, _), x) in f.params.iter().zip(a) {
                    env = env.bind(*p, x);
                }
                self.deeper(|m| m.comp(&f.body, &env, ev, k))
            }
            E::CallC(f, _, a) => {
                let a = self.args(a, env, ev)?;
                let V::C(c) = env.get(*f) else { panic!("harness: not a closure") };
                let mut env = c.env.clone();
                for (p, x) in c.params.iter().zip(a) {
                    env = env.bind(*p, x);
                }
                self.deeper(|m| m.comp(&c.body, &env, ev, k))
            }
            E::Handle(h) => self.handle(h, env, ev, k),
            E::Resume(a, _) => {
                let v = self.direct(a, env, ev)?;
                self.seen.resumes += 1;
                let Resumption { k: r, owner, tail, crosses } = env.resume.clone().expect("harness: resume outside an arm");
                if crosses && !Rc::ptr_eq(&tail, k) {
                    return Err("resumed across an inner handler and used the result");
                }
                Ok(match self.deeper(|m| r(m, v, ev))? {
                    Ans::Normal(x) => match self.deeper(|m| k(m, x, ev))? {
                        Ans::Escape(o, x) if o == owner => Ans::Normal(x),
                        a => a,
                    },
                    a => a,
                })
            }
            _ => unreachable!(),
        }
    }

    fn handle(&mut self, h: &Rc<H>, env: &Env, ev: &Ev, k: &K) -> Result<Ans, Stop> {
        self.tags += 1;
        let owner = self.tags;
        self.seen.handles += 1;
        if h.abilities.iter().any(|a| ev.find(*a).is_some()) {
            self.seen.shadowed += 1;
        }
        let inner = Ev(Some(Rc::new((Frame { h: h.clone(), env: env.clone(), owner }, ev.clone()))));
        self.seen.deepest = self.seen.deepest.max(inner.depth() as u64);
        let normal: K = Rc::new(|_, v, _| Ok(Ans::Normal(v)));
        match self.deeper(|m| m.comp(&h.body, env, &inner, &normal))? {
            Ans::Normal(v) => self.comp(&h.dob, &env.bind(h.dov, v), ev, k),
            Ans::Escape(o, v) if o == owner => {
                self.seen.escapes += 1;
                self.deeper(|m| k(m, v, ev))
            }
            Ans::Escape(o, v) => Ok(Ans::Escape(o, v)),
            Ans::Raw(_) => panic!("harness: raw answer from a handled body"),
        }
    }
}

// ---------------------------------------------------------------------------
// lowering to continuation-passing IR text, as the front end does it

const ANY: &str = "tribute_rt.anyref";
const KTY: &str = "!k";
const CTL: &str = "!__tribute_cps_control";

#[derive(Clone, Default)]
struct Em {
    /// variable, value, type
    vars: Vec<(usize, String, T)>,
    ev: Option<String>,
    resume: Option<String>,
    owner: Option<String>,
}

/// a continuation: the value and whether it has the closure type (else it is an `anyref`)
type Kv = (String, bool);

pub struct Emit<'a> {
    p: &'a Prog,
    b: String,
    n: usize,
    tag: u32,
}

pub fn emit(p: &Prog) -> String {
    let mut e = Emit { p, b: String::new(), n: 0, tag: 0 };
    e.module();
    e.b
}

impl Emit<'_> {
    fn ty(&self, t: T) -> String {
        match t {
            T::I => "core.i32".into(),
            T::F => "core.f64".into(),
            T::B => "core.i1".into(),
            T::N => "core.nil".into(),
            T::C(s) => format!("!c{s}"),
        }
    }

    fn v(&mut self) -> String {
        self.n += 1;
        format!("%{}", self.n)
    }

    fn op(&mut self, rhs: String) -> String {
        let v = self.v();
        writeln!(self.b, "{v} = {rhs}").unwrap();
        v
    }

    fn line(&mut self, s: String) {
        writeln!(self.b, "{s}").unwrap();
    }

    fn cast(&mut self, v: &str, ty: &str) -> String {
        self.op(format!("core.unrealized_conversion_cast {v} : {ty}"))
    }

    fn module(&mut self) {
        self.line("core.module @eff {".into());
        self.line("!_Marker = adt.struct() {fields = [[@ability_id, core.i32], [@prompt_tag, core.i32], [@tr_dispatch_fn, core.ptr], [@handler_dispatch, core.ptr]], name = @_Marker}".into());
        self.line("!t0 = core.array(!_Marker)".into());
        self.line("!__tribute_cps_control = adt.enum() {name = @__tribute_cps_control, variants = [[@Normal, [tribute_rt.anyref]], [@Escape, [core.i32, tribute_rt.anyref]]]}".into());
        self.line(format!("!k = closure.closure(core.func({ANY}, {ANY}))"));
        for (s, sig) in self.p.sigs.iter().enumerate() {
            let mut v = vec![ANY.to_string(), "!t0".into(), ANY.into()];
            v.extend(sig.params.iter().map(|t| self.ty(*t)));
            self.line(format!("!c{s} = closure.closure(core.func({}))", v.join(", ")));
        }
        for n in 2..=7 {
            let f: Vec<String> = (0..n).map(|i| format!("[@_{i}, {ANY}]")).collect();
            self.line(format!("!args{n} = adt.struct() {{fields = [{}], name = @__ability_args_tuple}}", f.join(", ")));
        }
        for (n, t) in [("v_in_i32", "core.i32")] {
            self.line(format!("func.func @{n}(%0: core.i32) -> {t} attributes {{abi = \"C\"}} {{ func.unreachable }}"));
        }
        for t in ["i32", "f64"] {
            self.line(format!("func.func @v_rec_{t}(%0: core.{t}) -> core.nil attributes {{abi = \"C\"}} {{ func.unreachable }}"));
        }
        self.line(format!("func.func @eff_id(%0: !t0, %1: {ANY}, %2: {ANY}) -> {ANY} {{ func.return %2 }}"));
        self.line(format!(
            "func.func @eff_normal(%0: !t0, %1: {ANY}, %2: {ANY}) -> {ANY} {{ %3 = adt.variant_new %2 {{tag = @Normal, type = {CTL}}} : {ANY} func.return %3 }}"
        ));
        for (i, f) in self.p.funcs.iter().enumerate() {
            self.n = 0;
            let mut sc = Em::default();
            let mut ps = vec![];
            let mut k = None;
            if f.conv != Conv::Direct {
                let e = self.v();
                ps.push(format!("{e}: !t0"));
                sc.ev = Some(e);
            }
            if f.conv == Conv::Cps {
                let d = self.v();
                ps.push(format!("{d}: {ANY}"));
                k = Some((d, false));
            }
            for (v, t) in &f.params {
                let x = self.v();
                ps.push(format!("{x}: {}", self.ty(*t)));
                sc.vars.push((*v, x, *t));
            }
            let (conv, rt) = match f.conv {
                Conv::Direct => (0, self.ty(f.result)),
                Conv::Evidence => (1, self.ty(f.result)),
                Conv::Cps => (2, ANY.into()),
            };
            self.line(format!("func.func @f{i}({}) -> {rt} attributes {{tribute.calling_convention = {conv}}} {{", ps.join(", ")));
            let r = match &k {
                Some(k) => self.comp(&f.body, &sc, k),
                None => self.direct(&f.body, &sc).0,
            };
            self.line(format!("func.return {r}"));
            self.line("}".into());
        }
        self.n = 0;
        self.line("func.func @main() -> core.nil attributes {tribute.calling_convention = 0} {".into());
        let m = self.p.main.clone().unwrap();
        let (r, _) = self.direct(&m, &Em::default());
        self.line(format!("func.return {r}"));
        self.line("}\n}".into());
    }

    fn evidence(&mut self, sc: &Em) -> String {
        match &sc.ev {
            Some(e) => e.clone(),
            None => self.op("adt.ref_null {type = !t0} : !t0".into()),
        }
    }

    fn args(&mut self, v: &[E], sc: &Em) -> Vec<(String, T)> {
        v.iter().map(|e| self.direct(e, sc)).collect()
    }

    fn pack(&mut self, a: Vec<(String, T)>) -> Vec<String> {
        if a.len() < 2 {
            return a.into_iter().map(|x| x.0).collect();
        }
        let n = a.len();
        let b: Vec<String> = a.iter().map(|x| self.cast(&x.0, ANY)).collect();
        vec![self.op(format!("adt.struct_new {} {{type = !args{n}}} : {ANY}", b.join(", ")))]
    }

    fn aname(&self, a: usize) -> String {
        if self.p.same && a < 2 { "A".into() } else { format!("A{a}") }
    }

    fn opattr(&self, o: usize) -> String {
        let d = &self.p.ops[o];
        let t = match d.ability {
            k @ (0 | 1) if self.p.same => ["core.i32", "core.f64"][k],
            _ => "",
        };
        format!("{{ability_ref = core.ability_ref({t}) {{name = @{}}}, op_name = @{}}}", self.aname(d.ability), d.name)
    }

    fn direct(&mut self, e: &E, sc: &Em) -> (String, T) {
        match e {
            E::Int(i) => (self.op(format!("arith.const {{value = {i}}} : core.i32")), T::I),
            E::Flt(f) => (self.op(format!("arith.const {{value = {f:?}}} : core.f64")), T::F),
            E::Bool(b) => (self.op(format!("arith.const {{value = {b}}} : core.i1")), T::B),
            E::Nil => (self.op("arith.const {value = unit} : core.nil".into()), T::N),
            E::Var(v, _) => {
                let x = sc.vars.iter().rev().find(|x| x.0 == *v).unwrap_or_else(|| panic!("harness: variable {v} not in scope"));
                (x.1.clone(), x.2)
            }
            E::In(k) => {
                let c = self.op(format!("arith.const {{value = {k}}} : core.i32"));
                let r = self.op(format!("func.call {c} {{callee = @v_in_i32}} : core.i32"));
                (self.mask(&r), T::I)
            }
            E::Bin(o, a, b, t) => {
                let (x, y) = (self.direct(a, sc).0, self.direct(b, sc).0);
                let n = match o {
                    '+' => "add",
                    '-' => "sub",
                    _ => "mul",
                };
                if *t == T::I {
                    let r = self.op(format!("arith.{n}i {x}, {y} : core.i32"));
                    (self.mask(&r), T::I)
                } else {
                    (self.op(format!("arith.{n}f {x}, {y} : core.f64")), T::F)
                }
            }
            E::Lt(a, b) => {
                let (x, y) = (self.direct(a, sc).0, self.direct(b, sc).0);
                (self.op(format!("arith.cmpi {x}, {y} {{predicate = @slt}} : core.i1")), T::B)
            }
            E::Rec(a, t) => {
                let x = self.direct(a, sc).0;
                match t {
                    T::I => self.op(format!("func.call {x} {{callee = @v_rec_i32}} : core.nil")),
                    T::F => self.op(format!("func.call {x} {{callee = @v_rec_f64}} : core.nil")),
                    T::B => {
                        // a flag is recorded as a number
                        let r = self.v();
                        self.line(format!("{r} = scf.if {x} : core.i32 {{"));
                        let c = self.op("arith.const {value = 1} : core.i32".into());
                        self.line(format!("scf.yield {c}\n}} {{"));
                        let c = self.op("arith.const {value = 0} : core.i32".into());
                        self.line(format!("scf.yield {c}\n}}"));
                        self.op(format!("func.call {r} {{callee = @v_rec_i32}} : core.nil"))
                    }
                    _ => panic!("harness: record"),
                };
                (x, *t)
            }
            E::Let(v, t, a, b) => {
                let x = self.direct(a, sc).0;
                let mut sc = sc.clone();
                sc.vars.push((*v, x, *t));
                self.direct(b, &sc)
            }
            E::If(c, a, b, t) => {
                let x = self.direct(c, sc).0;
                let r = self.v();
                let ty = self.ty(*t);
                self.line(format!("{r} = scf.if {x} : {ty} {{"));
                let y = self.direct(a, sc).0;
                self.line(format!("scf.yield {y}\n}} {{"));
                let y = self.direct(b, sc).0;
                self.line(format!("scf.yield {y}\n}}"));
                (r, *t)
            }
            E::FnOp(o, a) => {
                let a = self.args(a, sc);
                let a = self.pack(a);
                let t = self.p.ops[*o].result;
                let attr = self.opattr(*o);
                let r = self.op(format!("ability.legacy_call {} {attr} : {ANY}", a.join(", ")));
                let ty = self.ty(t);
                (self.cast(&r, &ty), t)
            }
            E::Call(f, a) => {
                let d = &self.p.funcs[*f];
                let mut x: Vec<String> = vec![];
                let args = self.args(a, sc);
                let (conv, rt) = (d.conv, d.result);
                if conv == Conv::Evidence {
                    x.push(self.evidence(sc));
                }
                x.extend(args.into_iter().map(|a| a.0));
                let ty = self.ty(rt);
                let c = if conv == Conv::Evidence { 1 } else { 0 };
                (self.op(format!("func.call {} {{callee = @f{f}, tribute.calling_convention = {c}}} : {ty}", x.join(", "))), rt)
            }
            E::HandleSrc(h) => {
                let k = self.fixed("eff_id");
                let r = self.handle(h, sc, &k);
                let ty = self.ty(h.ty);
                (self.cast(&r, &ty), h.ty)
            }
            E::Lam(s, ps, b) => {
                let sig = self.p.sigs[*s].clone();
                let mut inner = sc.clone();
                let (ev, dk) = (self.v(), self.v());
                inner.ev = Some(ev.clone());
                let mut params = vec![(ev, "!t0".to_string()), (dk.clone(), ANY.to_string())];
                for (p, t) in ps.iter().zip(&sig.params) {
                    let x = self.v();
                    params.push((x.clone(), self.ty(*t)));
                    inner.vars.push((*p, x, *t));
                }
                let caps = self.captures(&[b], &[], ps, sc, &[]);
                let r = self.v();
                self.lambda(&r, &params, &caps, true);
                let x = self.comp(b, &inner, &(dk, false));
                self.line(format!("func.return {x}\n}}"));
                (r, T::C(*s))
            }
            E::Perform(..) | E::CallC(..) | E::Handle(_) | E::Resume(..) => panic!("harness: computation in place"),
        }
    }

    /// opens a closure body; the caller closes it
    fn lambda(&mut self, r: &str, params: &[(String, String)], caps: &[String], cps: bool) {
        let ps: Vec<String> = params.iter().map(|(v, t)| format!("{v}: {t}")).collect();
        let caps = if caps.is_empty() { String::new() } else { format!(" [{}]", caps.join(", ")) };
        let attr = if cps { " {tribute.calling_convention = 2}" } else { "" };
        self.line(format!("{r} = closure.lambda({}) -> {ANY}{attr}{caps} {{", ps.join(", ")));
    }

    fn mask(&mut self, v: &str) -> String {
        let m = self.op(format!("arith.const {{value = {MASK}}} : core.i32"));
        self.op(format!("arith.and {v}, {m} : core.i32"))
    }

    /// a continuation given by a module-level function
    fn fixed(&mut self, f: &str) -> Kv {
        let n = self.op(format!("adt.ref_null {{type = {ANY}}} : {ANY}"));
        (self.op(format!("closure.new {n} {{func_ref = @{f}}} : {KTY}")), true)
    }

    fn captures(&mut self, open: &[&E], arms: &[&E], bound: &[usize], sc: &Em, more: &[&str]) -> Vec<String> {
        let (mut vs, mut resume, mut own) = (vec![], false, false);
        open.iter().for_each(|e| free_vars(e, &mut vs, &mut resume));
        arms.iter().for_each(|e| free_vars(e, &mut vs, &mut own));
        let mut out: Vec<String> = vec![];
        for (i, x) in sc.vars.iter().enumerate() {
            let shadowed = sc.vars[i + 1..].iter().any(|y| y.0 == x.0);
            if vs.contains(&x.0) && !bound.contains(&x.0) && !shadowed && !out.contains(&x.1) {
                out.push(x.1.clone());
            }
        }
        if resume {
            out.extend(sc.resume.clone());
        }
        if !open.is_empty() {
            out.extend(sc.owner.clone());
        }
        for m in more {
            if !out.iter().any(|x| x == m) {
                out.push(m.to_string());
            }
        }
        out
    }

    fn invoke(&mut self, k: &Kv, v: &str, any: bool) -> String {
        let f = if k.1 { k.0.clone() } else { self.cast(&k.0, KTY) };
        let v = if any { v.to_string() } else { self.cast(v, ANY) };
        self.op(format!("func.call_indirect {f}, {v} : {ANY}"))
    }

    fn comp(&mut self, e: &E, sc: &Em, k: &Kv) -> String {
        if !is_cps(self.p, e) {
            let (v, _) = self.direct(e, sc);
            return self.invoke(k, &v, false);
        }
        match e {
            E::Let(v, t, a, b) => {
                let mut inner = sc.clone();
                if !is_cps(self.p, a) {
                    let x = self.direct(a, sc).0;
                    inner.vars.push((*v, x, *t));
                    return self.comp(b, &inner, k);
                }
                let caps = self.captures(&[b], &[], &[*v], sc, &[&k.0]);
                let r = self.v();
                let x = self.v();
                self.lambda(&r, &[(x.clone(), ANY.into())], &caps, false);
                let ty = self.ty(*t);
                let y = self.cast(&x, &ty);
                inner.vars.push((*v, y, *t));
                let z = self.comp(b, &inner, k);
                self.line(format!("func.return {z}\n}}"));
                self.comp(a, sc, &(r, true))
            }
            E::If(c, a, b, _) => {
                let x = self.direct(c, sc).0;
                let r = self.v();
                self.line(format!("{r} = scf.if {x} : {ANY} {{"));
                let y = self.comp(a, sc, k);
                self.line(format!("scf.yield {y}\n}} {{"));
                let y = self.comp(b, sc, k);
                self.line(format!("scf.yield {y}\n}}"));
                r
            }
            E::Perform(o, a) => {
                let a = self.args(a, sc);
                let mut x = vec![k.0.clone()];
                x.extend(self.pack(a));
                let attr = self.opattr(*o);
                self.op(format!("ability.legacy_perform {} {attr} : {ANY}", x.join(", ")))
            }
            E::Call(f, a) => {
                let a = self.args(a, sc);
                let ev = self.evidence(sc);
                let mut x = vec![ev, k.0.clone()];
                x.extend(a.into_iter().map(|a| a.0));
                self.op(format!("func.call {} {{callee = @f{f}, tribute.calling_convention = 2}} : {ANY}", x.join(", ")))
            }
            E::CallC(f, s, a) => {
                let a = self.args(a, sc);
                let ev = self.evidence(sc);
                let c = sc.vars.iter().rev().find(|x| x.0 == *f).unwrap().1.clone();
                let _ = s;
                let mut x = vec![c, ev, k.0.clone()];
                x.extend(a.into_iter().map(|a| a.0));
                self.op(format!("func.call_indirect {} {{tribute.calling_convention = 2}} : {ANY}", x.join(", ")))
            }
            E::Handle(h) => self.handle(h, sc, k),
            E::Resume(a, t) => {
                let v = self.direct(a, sc).0;
                let rk = (sc.resume.clone().expect("harness: resume"), false);
                let owner = sc.owner.clone().unwrap();
                let ans = self.invoke(&rk, &v, false);
                let c = self.op(format!("adt.variant_is {ans} {{tag = @Normal, type = {CTL}}} : core.i1"));
                let r = self.v();
                self.line(format!("{r} = scf.if {c} : {ANY} {{"));
                let n = self.op(format!("adt.variant_cast {ans} {{tag = @Normal, type = {CTL}}} : {ANY}"));
                let p = self.op(format!("adt.variant_get {n} {{field = 0, tag = @Normal, type = {CTL}}} : {ANY}"));
                let ty = self.ty(*t);
                let p = self.cast(&p, &ty);
                let after = self.invoke(k, &p, false);
                let is = self.op(format!("adt.variant_is {after} {{tag = @Escape, type = {CTL}}} : core.i1"));
                let s = self.v();
                self.line(format!("{s} = scf.if {is} : {ANY} {{"));
                let n = self.op(format!("adt.variant_cast {after} {{tag = @Escape, type = {CTL}}} : {ANY}"));
                let o = self.op(format!("adt.variant_get {n} {{field = 0, tag = @Escape, type = {CTL}}} : core.i32"));
                let p = self.op(format!("adt.variant_get {n} {{field = 1, tag = @Escape, type = {CTL}}} : {ANY}"));
                let eq = self.op(format!("arith.cmpi {o}, {owner} {{predicate = @eq}} : core.i1"));
                let q = self.v();
                self.line(format!("{q} = scf.if {eq} : {ANY} {{"));
                let n = self.op(format!("adt.variant_new {p} {{tag = @Normal, type = {CTL}}} : {ANY}"));
                self.line(format!("scf.yield {n}\n}} {{\nscf.yield {after}\n}}"));
                self.line(format!("scf.yield {q}\n}} {{\nscf.yield {after}\n}}"));
                self.line(format!("scf.yield {s}\n}} {{\nscf.yield {ans}\n}}"));
                r
            }
            _ => unreachable!(),
        }
    }

    fn handle(&mut self, h: &Rc<H>, sc: &Em, k: &Kv) -> String {
        self.tag += 1;
        let tag = self.tag;
        // body
        let caps = self.captures(&[&h.body], &[], &[], sc, &[]);
        let (body, bk) = (self.v(), self.v());
        self.lambda(&body, &[(bk.clone(), ANY.into())], &caps, false);
        let x = self.comp(&h.body, sc, &(bk, false));
        self.line(format!("func.return {x}\n}}"));
        let done = self.fixed("eff_normal");
        let yr = self.op(format!("func.call_indirect {body}, {} : {ANY}", done.0));
        // completion regions come last in the text; they are emitted into separate buffers
        let outer = std::mem::take(&mut self.b);
        self.line("{\nability.done {".into());
        let v = self.v();
        self.line(format!("^bb0({v}: {ANY}):"));
        let ty = self.ty(h.ty);
        let y = self.cast(&v, &ty);
        let mut dsc = sc.clone();
        dsc.vars.push((h.dov, y, h.ty));
        let x = self.comp(&h.dob, &dsc, k);
        self.line(format!("scf.yield {x}\n}}"));
        for a in &h.arms {
            let d = &self.p.ops[a.op];
            let kind = if d.general { "suspend" } else { "yield" };
            let attr = self.opattr(a.op);
            let (x, y) = (self.v(), self.v());
            self.line(format!("ability.{kind} {attr} {{\n^bb0({x}: {ANY}, {y}: {ANY}):\nscf.yield {y}\n}}"));
        }
        self.line("} {".into());
        let v = self.v();
        self.line(format!("^bb0({v}: {ANY}):"));
        let x = self.invoke(k, &v, true);
        self.line(format!("scf.yield {x}\n}}"));
        let regions = std::mem::replace(&mut self.b, outer);
        // dispatchers
        let all: Vec<&Arm> = h.arms.iter().collect();
        let hf = self.dispatcher(&all, sc, true);
        let fns: Vec<&Arm> = h.arms.iter().filter(|a| !self.p.ops[a.op].general).collect();
        let tf = if fns.is_empty() {
            self.op(format!("arith.const {{value = 0}} : {ANY}"))
        } else {
            self.dispatcher(&fns, sc, false)
        };
        let owner = self.op("effect.fresh_prompt_tag : core.i32".into());
        self.op(format!("ability.legacy_handle_dispatch {yr}, {owner}, {hf}, {tf} {{tag = {tag}, result_type = {ANY}}} : {ANY} {regions}"))
    }

    fn dispatcher(&mut self, arms: &[&Arm], sc: &Em, full: bool) -> String {
        let bodies: Vec<&E> = arms.iter().map(|a| &a.body).collect();
        let bound: Vec<usize> = arms.iter().flat_map(|a| a.params.iter().copied()).collect();
        let caps = self.captures(&[], &bodies, &bound, sc, &[]);
        let r = self.v();
        let mut inner = sc.clone();
        let (idx, val);
        if full {
            let (k, o) = (self.v(), self.v());
            (idx, val) = (self.v(), self.v());
            let i32t = || "core.i32".to_string();
            self.lambda(&r, &[(k.clone(), ANY.into()), (o.clone(), i32t()), (idx.clone(), i32t()), (val.clone(), ANY.into())], &caps, false);
            inner.resume = Some(k);
            inner.owner = Some(o);
        } else {
            inner.owner = None;
            inner.resume = None;
            (idx, val) = (self.v(), self.v());
            self.lambda(&r, &[(idx.clone(), "core.i32".into()), (val.clone(), ANY.into())], &caps, false);
        }
        let x = self.chain(arms, &inner, &idx, &val);
        self.line(format!("func.return {x}\n}}"));
        r
    }

    fn chain(&mut self, arms: &[&Arm], sc: &Em, idx: &str, val: &str) -> String {
        let a = arms[0];
        let d = self.p.ops[a.op].clone();
        let last = arms.len() == 1;
        let c = if last {
            self.op("arith.const {value = 1} : core.i1".into())
        } else {
            let n = tribute_ir::dialect::ability::compute_op_idx(
                Some(trunk_ir::Symbol::from_dynamic(&self.aname(d.ability))),
                Some(trunk_ir::Symbol::from_dynamic(&d.name)),
            );
            let e = self.op(format!("arith.const {{value = {n}}} : core.i32"));
            self.op(format!("arith.cmpi {idx}, {e} {{predicate = @eq}} : core.i1"))
        };
        let r = self.v();
        self.line(format!("{r} = scf.if {c} : {ANY} {{"));
        let mut inner = sc.clone();
        for (i, (p, t)) in a.params.iter().zip(&d.params).enumerate() {
            let raw = if d.params.len() > 1 {
                self.op(format!("adt.struct_get {val} {{field = {i}, type = !args{}}} : {ANY}", d.params.len()))
            } else {
                val.to_string()
            };
            let ty = self.ty(*t);
            let x = self.cast(&raw, &ty);
            inner.vars.push((*p, x, *t));
        }
        let x = if d.general {
            let o = sc.owner.clone().unwrap();
            let (e, v) = (self.v(), self.v());
            self.lambda(&e, &[(v.clone(), ANY.into())], &[o.clone()], false);
            let x = self.op(format!("adt.variant_new {o}, {v} {{tag = @Escape, type = {CTL}}} : {ANY}"));
            self.line(format!("func.return {x}\n}}"));
            self.comp(&a.body, &inner, &(e, true))
        } else {
            let k = self.fixed("eff_id");
            self.comp(&a.body, &inner, &k)
        };
        self.line(format!("scf.yield {x}\n}} {{"));
        if last {
            self.line("func.unreachable\n}".into());
        } else {
            let y = self.chain(&arms[1..], sc, idx, val);
            self.line(format!("scf.yield {y}\n}}"));
        }
        r
    }
}
