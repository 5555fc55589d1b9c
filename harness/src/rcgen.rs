//! Programs about references only: shared structures, chains of field reads, references carried
//! round loops and through joins, passed to functions that keep, drop, return or forward them,
//! and proper tail calls that hand them over.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    I,
    B,
    S(usize),
    L,
    /// byte string
    Y,
}
type Scope = Vec<(String, Ty)>;

struct F {
    name: String,
    params: Vec<Ty>,
    ret: Option<Ty>, // None: proper-tail-calling function
    rec: bool,
}

pub struct G<'a> {
    r: &'a mut Rng,
    out: String,
    n: usize,
    structs: Vec<Vec<Ty>>,
    fs: Vec<F>,
    straight: bool,
    budget: i32,
    cur: usize,
    fresh_objects: std::collections::HashSet<String>,
    bytes: bool,
    loopy: bool,
}

const ANY: &str = "tribute_rt.anyref";

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, straight: bool, bytes: bool) -> Self {
        let loopy = r.chance(25);
        G { r, out: String::new(), n: 0, structs: vec![], fs: vec![], straight, budget: 0, cur: 0, fresh_objects: Default::default(), bytes, loopy }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("%{}", self.n)
    }
    fn l(&mut self, s: String) {
        self.out.push_str(&s);
        self.out.push('\n');
    }
    fn tt(t: Ty) -> &'static str {
        match t {
            Ty::I => "core.i32",
            Ty::Y => "core.bytes",
            _ => ANY,
        }
    }
    fn any_ty(&mut self) -> Ty {
        match self.r.below(10) {
            0 if self.bytes => Ty::Y,
            0..=1 => Ty::I,
            2..=3 => Ty::B,
            4..=5 => Ty::L,
            _ => Ty::S(self.r.below(self.structs.len())),
        }
    }
    fn ref_ty(&mut self) -> Ty {
        loop {
            let t = self.any_ty();
            if t != Ty::I {
                return t;
            }
        }
    }
    fn konst(&mut self, x: i64) -> String {
        let v = self.fresh();
        self.l(format!("{v} = arith.const {{value = {x}}} : core.i32"));
        v
    }

    pub fn module(&mut self) -> String {
        let ns = 2 + self.r.below(3);
        for k in 0..ns {
            let nf = 1 + self.r.below(6);
            let mut f = vec![];
            for _ in 0..nf {
                f.push(match self.r.below(6) {
                    0 if self.bytes && self.r.chance(70) => Ty::Y,
                    0 => Ty::I,
                    1 | 2 => Ty::B,
                    3 => Ty::L,
                    _ if k > 0 => Ty::S(self.r.below(k)),
                    _ => Ty::B,
                });
            }
            self.structs.push(f);
        }
        self.l("core.module @m {".into());
        for k in 0..ns {
            let f: Vec<String> =
                self.structs[k].iter().enumerate().map(|(i, t)| format!("[@f{i}, {}]", Self::tt(*t))).collect();
            self.l(format!("!S{k} = adt.struct() {{fields = [{}], name = @S{k}}}", f.join(", ")));
        }
        self.l(format!(
            "!L = adt.enum() {{name = @L, variants = [[@Nil, []], [@One, [core.i32]], [@Cons, [{ANY}, {ANY}]], [@Two, [core.i32, {ANY}, {ANY}, core.i32, {ANY}, {ANY}{}]]]}}",
            if self.bytes { ", core.bytes" } else { "" }
        ));
        if self.bytes {
            self.l("func.func @__tribute_bytes_len(%0: core.bytes) -> core.i32 attributes {abi = \"C\"} { func.unreachable }".into());
        }
        for h in ["v_rec_i32(%0: core.i32) -> core.nil", "v_in_i32(%0: core.i32) -> core.i32"] {
            self.l(format!("func.func @{h} attributes {{abi = \"C\"}} {{ func.unreachable }}"));
        }
        let nf = 2 + self.r.below(4);
        let nc = if self.r.chance(60) { 1 + self.r.below(3) } else { 0 };
        // proper-tail-calling functions may call the plain ones, and each other downwards
        for i in 0..nf + nc {
            let cps = i >= nf;
            let np = 1 + self.r.below(4);
            let rec = !cps && !self.straight && self.r.chance(25);
            let mut params: Vec<Ty> = (0..np).map(|_| self.any_ty()).collect();
            if rec {
                params.insert(0, Ty::I);
            }
            if cps {
                params.push(self.ref_ty());
            }
            let ret = if cps { None } else { Some(self.any_ty()) };
            self.fs.push(F { name: format!("{}{i}", if cps { "c" } else { "f" }), params, ret, rec });
            self.function(i);
        }
        self.cur = usize::MAX;
        self.l("func.func @main() -> core.nil {".into());
        self.budget = 40;
        let mut sc: Scope = vec![];
        for k in 0..2 {
            let c = self.konst(k);
            let v = self.fresh();
            self.l(format!("{v} = func.call {c} {{callee = @v_in_i32}} : core.i32"));
            sc.push((v, Ty::I));
        }
        let n = 3 + self.r.below(6);
        self.stmts(&mut sc, n, 0);
        for i in 0..self.fs.len() {
            if self.r.chance(70) {
                self.call(&mut sc, i, 0);
            }
        }
        for _ in 0..2 {
            self.observe(&mut sc);
        }
        let z = self.fresh();
        self.l(format!("{z} = arith.const {{value = unit}} : core.nil"));
        self.l(format!("func.return {z}\n}}\n}}"));
        std::mem::take(&mut self.out)
    }

    fn function(&mut self, i: usize) {
        self.cur = i;
        self.budget = if self.loopy { 45 } else { 30 };
        let (name, params, ret, rec) =
            (self.fs[i].name.clone(), self.fs[i].params.clone(), self.fs[i].ret, self.fs[i].rec);
        let mut sc: Scope = vec![];
        let mut ps = vec![];
        for t in &params {
            let v = self.fresh();
            ps.push(format!("{v}: {}", Self::tt(*t)));
            sc.push((v, *t));
        }
        let rt = ret.map_or("core.nil", Self::tt);
        let at = if ret.is_none() { " attributes {tribute.calling_convention = 2}" } else { "" };
        self.l(format!("func.func @{name}({}) -> {rt}{at} {{", ps.join(", ")));
        let n = self.r.below(5);
        self.stmts(&mut sc, n, 0);
        match ret {
            Some(t) if rec => {
                // one more round while the counter lasts
                let z = self.konst(0);
                let c = self.fresh();
                self.l(format!("{c} = arith.cmpi {}, {z} {{predicate = @sle}} : core.i1", sc[0].0));
                let v = self.fresh();
                self.l(format!("{v} = scf.if {c} : {} {{", Self::tt(t)));
                let mut a = sc.clone();
                let x = self.value(&mut a, t, 0);
                self.l(format!("scf.yield {x}\n}} {{"));
                let mut b = sc.clone();
                let one = self.konst(1);
                let m = self.fresh();
                self.l(format!("{m} = arith.subi {}, {one} : core.i32", sc[0].0));
                let mut args = vec![m];
                for p in params[1..].to_vec() {
                    args.push(self.value(&mut b, p, 0));
                }
                let x = self.fresh();
                self.l(format!("{x} = func.call {} {{callee = @{name}}} : {}", args.join(", "), Self::tt(t)));
                b.push((x.clone(), t));
                let n = self.r.below(2);
                self.stmts(&mut b, n, 1);
                let y = if self.r.chance(60) { x } else { self.value(&mut b, t, 0) };
                self.l(format!("scf.yield {y}\n}}"));
                self.l(format!("func.return {v}\n}}"));
            }
            Some(t) => {
                let v = self.value(&mut sc, t, 0);
                self.l(format!("func.return {v}\n}}"));
            }
            None => {
                let c: Vec<usize> = (0..i).filter(|&k| self.fs[k].ret.is_none()).collect();
                if !c.is_empty() && self.r.chance(80) {
                    let k = *self.r.pick(&c);
                    let mut args = vec![];
                    for p in self.fs[k].params.clone() {
                        // (an object constructed right here is not accepted as a handed-over argument)
                        let mut v = self.value(&mut sc, p, 0);
                        for _ in 0..6 {
                            if !self.fresh_objects.contains(&v) {
                                break;
                            }
                            v = self.value(&mut sc, p, 0);
                        }
                        args.push(v);
                    }
                    if self.r.chance(30) && !self.fs[k].params.contains(&Ty::Y) {
                        let f = self.fresh();
                        let sig: Vec<&str> = self.fs[k].params.iter().map(|t| Self::tt(*t)).collect();
                        self.l(format!("{f} = func.constant {{func_ref = @{}}} : core.func(core.never, {})", self.fs[k].name, sig.join(", ")));
                        self.l(format!(
                            "func.tail_call_indirect {f}, {} {{func.indirect_call_signature = core.func(core.nil, {}), tribute.calling_convention = 2}}",
                            args.join(", "),
                            sig.join(", ")
                        ));
                    } else {
                        self.l(format!(
                            "func.tail_call {} {{callee = @{}, tribute.calling_convention = 2}}",
                            args.join(", "),
                            self.fs[k].name
                        ));
                    }
                    self.l("}".into());
                } else {
                    self.observe(&mut sc);
                    let z = self.fresh();
                    self.l(format!("{z} = arith.const {{value = unit}} : core.nil"));
                    self.l(format!("func.return {z}\n}}"));
                }
            }
        }
    }

    fn find(&mut self, sc: &Scope, t: Ty) -> Option<String> {
        let c: Vec<&String> = sc.iter().filter(|x| x.1 == t).map(|x| &x.0).collect();
        if c.is_empty() {
            return None;
        }
        Some((*self.r.pick(&c)).clone())
    }

    /// An existing value most of the time, else a new one.
    fn value(&mut self, sc: &mut Scope, t: Ty, d: u32) -> String {
        if self.r.chance(if d > 2 { 95 } else { 70 }) {
            if let Some(v) = self.find(sc, t) {
                return v;
            }
        }
        let v = self.make(sc, t, d + 1);
        sc.push((v.clone(), t));
        v
    }

    fn make(&mut self, sc: &mut Scope, t: Ty, d: u32) -> String {
        // out of a structure in scope
        if self.r.chance(45) {
            let c: Vec<(String, usize, usize)> = sc
                .iter()
                .filter_map(|(v, s)| if let Ty::S(k) = s { Some((v, *k)) } else { None })
                .flat_map(|(v, k)| {
                    self.structs[k].iter().enumerate().filter(|x| *x.1 == t).map(|x| (v.clone(), k, x.0)).collect::<Vec<_>>()
                })
                .collect();
            if !c.is_empty() {
                let (o, k, i) = self.r.pick(&c).clone();
                return self.get(&o, k, i);
            }
        }
        // from a function
        if d <= 2 && t != Ty::I && self.r.chance(35) {
            let c: Vec<usize> = (0..self.fs.len()).filter(|&i| i != self.cur && self.fs[i].ret == Some(t)).collect();
            if !c.is_empty() {
                let i = *self.r.pick(&c);
                return self.call(sc, i, d).unwrap();
            }
        }
        match t {
            Ty::I => {
                if let (Some(a), true) = (self.find(sc, Ty::I), self.r.chance(60)) {
                    let b = self.konst(1);
                    let v = self.fresh();
                    self.l(format!("{v} = arith.addi {a}, {b} : core.i32"));
                    return v;
                }
                let x = self.r.range(-3, 90);
                self.konst(x)
            }
            Ty::Y => {
                let n = self.r.below(6);
                let v = self.fresh();
                self.l(format!("{v} = adt.bytes_const {{value = b\"{}\"}} : core.bytes", &"abcdefg"[..n]));
                v
            }
            Ty::B => {
                let x = self.value(sc, Ty::I, d + 1);
                let v = self.fresh();
                self.l(format!("{v} = core.unrealized_conversion_cast {x} : {ANY}"));
                v
            }
            Ty::S(k) => {
                let mut a = vec![];
                for f in self.structs[k].clone() {
                    a.push(self.value(sc, f, d + 1));
                }
                let v = self.fresh();
                self.l(format!("{v} = adt.struct_new {} {{type = !S{k}}} : {ANY}", a.join(", ")));
                self.fresh_objects.insert(v.clone());
                v
            }
            Ty::L => {
                let w = if d > 3 { self.r.below(2) } else { self.r.below(4) };
                let (tag, fs): (&str, Vec<Ty>) = match w {
                    0 => ("Nil", vec![]),
                    1 => ("One", vec![Ty::I]),
                    2 => ("Cons", vec![Ty::B, Ty::L]),
                    _ if self.bytes => ("Two", vec![Ty::I, Ty::B, Ty::L, Ty::I, Ty::L, Ty::B, Ty::Y]),
                    _ => ("Two", vec![Ty::I, Ty::B, Ty::L, Ty::I, Ty::L, Ty::B]),
                };
                let mut a = vec![];
                for f in fs {
                    a.push(self.value(sc, f, d + 1));
                }
                let v = self.fresh();
                let sep = if a.is_empty() { "" } else { " " };
                self.fresh_objects.insert(v.clone());
                self.l(format!("{v} = adt.variant_new{sep}{} {{tag = @{tag}, type = !L}} : {ANY}", a.join(", ")));
                v
            }
        }
    }

    fn get(&mut self, o: &str, k: usize, i: usize) -> String {
        let c = self.fresh();
        if self.r.chance(70) {
            self.l(format!("{c} = core.unrealized_conversion_cast {o} : !S{k}"));
        } else {
            self.l(format!("{c} = adt.ref_cast {o} {{type = !S{k}}} : !S{k}"));
        }
        let v = self.fresh();
        let t = Self::tt(self.structs[k][i]);
        self.l(format!("{v} = adt.struct_get {c} {{field = {i}, type = !S{k}}} : {t}"));
        v
    }

    fn call(&mut self, sc: &mut Scope, i: usize, d: u32) -> Option<String> {
        let mut a = vec![];
        let rec = self.fs[i].rec;
        for (j, p) in self.fs[i].params.clone().into_iter().enumerate() {
            if rec && j == 0 {
                let n = self.r.below(4) as i64;
                a.push(self.konst(n));
            } else {
                a.push(self.value(sc, p, d + 1));
            }
        }
        let v = self.fresh();
        let (n, ret) = (self.fs[i].name.clone(), self.fs[i].ret);
        let at = if ret.is_none() { ", tribute.calling_convention = 2" } else { "" };
        self.l(format!("{v} = func.call {} {{callee = @{n}{at}}} : {}", a.join(", "), ret.map_or("core.nil", Self::tt)));
        if let Some(t) = ret {
            sc.push((v.clone(), t));
            return Some(v);
        }
        None
    }

    /// Follow references from something in scope down to a number and show it.
    fn observe(&mut self, sc: &mut Scope) {
        let c: Vec<(String, Ty)> = sc.iter().filter(|x| x.1 != Ty::I || self.structs.is_empty()).cloned().collect();
        let (mut v, mut t) = if c.is_empty() {
            let t = self.ref_ty();
            (self.value(sc, t, 0), t)
        } else {
            self.r.pick(&c).clone()
        };
        loop {
            match t {
                Ty::I => break,
                Ty::Y => {
                    let x = self.fresh();
                    self.l(format!("{x} = func.call {v} {{callee = @__tribute_bytes_len}} : core.i32"));
                    v = x;
                    t = Ty::I;
                }
                Ty::B => {
                    let x = self.fresh();
                    self.l(format!("{x} = core.unrealized_conversion_cast {v} : core.i32"));
                    v = x;
                    t = Ty::I;
                }
                Ty::S(k) => {
                    let i = self.r.below(self.structs[k].len());
                    v = self.get(&v, k, i);
                    t = self.structs[k][i];
                    if self.r.chance(40) {
                        sc.push((v.clone(), t));
                    }
                }
                Ty::L => {
                    if self.straight {
                        let x = self.fresh();
                        self.l(format!("{x} = adt.variant_is {v} {{tag = @One, type = !L}} : core.i1"));
                        return;
                    }
                    let x = self.fresh();
                    self.l(format!("{x} = adt.variant_is {v} {{tag = @Cons, type = !L}} : core.i1"));
                    let y = self.fresh();
                    self.l(format!("{y} = scf.if {x} : core.i32 {{"));
                    let k = self.fresh();
                    self.l(format!("{k} = adt.variant_cast {v} {{tag = @Cons, type = !L}} : !L"));
                    let b = self.fresh();
                    self.l(format!("{b} = adt.variant_get {k} {{field = 0, tag = @Cons, type = !L}} : {ANY}"));
                    let e = self.fresh();
                    self.l(format!("{e} = adt.variant_get {k} {{field = 1, tag = @Cons, type = !L}} : {ANY}"));
                    let mut inner = sc.clone();
                    inner.push((b.clone(), Ty::B));
                    inner.push((e, Ty::L));
                    if self.budget > 0 {
                        let n = self.r.below(3);
                        self.stmts(&mut inner, n, 2);
                    }
                    let u = self.fresh();
                    self.l(format!("{u} = core.unrealized_conversion_cast {b} : core.i32"));
                    self.l(format!("scf.yield {u}\n}} {{"));
                    let z = self.konst(-1);
                    self.l(format!("scf.yield {z}\n}}"));
                    v = y;
                    t = Ty::I;
                }
            }
        }
        let z = self.fresh();
        self.l(format!("{z} = func.call {v} {{callee = @v_rec_i32}} : core.nil"));
    }

    fn stmts(&mut self, sc: &mut Scope, n: usize, d: u32) {
        for _ in 0..n {
            self.budget -= 1;
            if self.budget < 0 {
                return;
            }
            let k = if self.loopy && !self.straight && self.r.chance(30) { 10 } else { self.r.below(if self.straight { 7 } else { 11 }) };
            match k {
                0 | 1 => {
                    let t = self.ref_ty();
                    let v = self.make(sc, t, 1);
                    sc.push((v, t));
                }
                2 | 3 => self.observe(sc),
                4 => {
                    // a callee below this function
                    let c: Vec<usize> = (0..self.fs.len()).filter(|&i| i != self.cur).collect();
                    if !c.is_empty() {
                        let i = *self.r.pick(&c);
                        self.call(sc, i, 1);
                    }
                }
                5 => {
                    // read a chain of fields and keep every step
                    let c: Vec<(String, Ty)> = sc.iter().filter(|x| matches!(x.1, Ty::S(_))).cloned().collect();
                    if let Some((v, t)) = (!c.is_empty()).then(|| self.r.pick(&c).clone()) {
                        let (mut v, mut t) = (v, t);
                        while let Ty::S(k) = t {
                            let i = self.r.below(self.structs[k].len());
                            v = self.get(&v, k, i);
                            t = self.structs[k][i];
                            sc.push((v.clone(), t));
                        }
                    }
                }
                6 => {
                    let c: Vec<(String, usize)> =
                        sc.iter().filter_map(|x| if let Ty::S(k) = x.1 { Some((x.0.clone(), k)) } else { None }).collect();
                    if self.r.chance(50) && !c.is_empty() {
                        let (o, k) = self.r.pick(&c).clone();
                        let i = self.r.below(self.structs[k].len());
                        let x = self.value(sc, self.structs[k][i], 1);
                        // The source language has no assignment: the compiler's own cells never
                        // take an object that the same function just built and also hands out.
                        if self.fresh_objects.contains(&x) {
                            continue;
                        }
                        let g = self.fresh();
                        self.l(format!("{g} = core.unrealized_conversion_cast {o} : !S{k}"));
                        self.l(format!("adt.struct_set {g}, {x} {{field = {i}, type = !S{k}}}"));
                    }
                }
                7 | 8 if d < 3 => {
                    let a = self.value(sc, Ty::I, 1);
                    let z = self.r.range(0, 3);
                    let z = self.konst(z);
                    let c = self.fresh();
                    let p = *self.r.pick(&["eq", "slt", "sgt", "ne"]);
                    self.l(format!("{c} = arith.cmpi {a}, {z} {{predicate = @{p}}} : core.i1"));
                    let t = self.any_ty();
                    let v = self.fresh();
                    self.l(format!("{v} = scf.if {c} : {} {{", Self::tt(t)));
                    for side in 0..2 {
                        let mut inner = sc.clone();
                        let k = self.r.below(3);
                        self.stmts(&mut inner, k, d + 1);
                        let y = self.value(&mut inner, t, 1);
                        self.l(format!("scf.yield {y}"));
                        self.l(if side == 0 { "} {".into() } else { "}".into() });
                    }
                    sc.push((v, t));
                }
                9 | 10 if d < if self.loopy { 4 } else { 2 } => {
                    let mut tys = vec![Ty::I];
                    for _ in 0..1 + self.r.below(3) {
                        tys.push(self.any_ty());
                    }
                    let ri = self.r.below(tys.len());
                    let mut inits = vec![self.konst(0)];
                    for t in tys[1..].to_vec() {
                        inits.push(self.value(sc, t, 1));
                    }
                    let v = self.fresh();
                    self.l(format!("{v} = scf.loop {} : {} {{", inits.join(", "), Self::tt(tys[ri])));
                    let ps: Vec<String> = tys.iter().map(|_| self.fresh()).collect();
                    let decl: Vec<String> = ps.iter().zip(&tys).map(|(p, t)| format!("{p}: {}", Self::tt(*t))).collect();
                    self.l(format!("^bb{}({}):", self.n, decl.join(", ")));
                    let mut inner = sc.clone();
                    for (p, t) in ps.iter().zip(&tys) {
                        inner.push((p.clone(), *t));
                    }
                    let trips = self.r.below(4);
                    // some work above the test
                    if self.r.chance(40) {
                        self.stmts(&mut inner, 1, d + 1);
                    }
                    self.l(format!("scf.switch {} {{", ps[0]));
                    self.l(format!("scf.case {{value = {trips}}} {{"));
                    let mut e = inner.clone();
                    let k = self.r.below(2);
                    self.stmts(&mut e, k, d + 1);
                    let y = self.value(&mut e, tys[ri], 1);
                    self.l(format!("scf.break {y}\n}}\nscf.default {{"));
                    let k = 1 + self.r.below(3);
                    self.stmts(&mut inner, k, d + 1);
                    let one = self.konst(1);
                    let nx = self.fresh();
                    self.l(format!("{nx} = arith.addi {}, {one} : core.i32", ps[0]));
                    let mut args = vec![nx];
                    for t in tys[1..].to_vec() {
                        args.push(self.value(&mut inner, t, 1));
                    }
                    self.l(format!("scf.continue {}\n}}\n}}\nfunc.unreachable\n}}", args.join(", ")));
                    sc.push((v, tys[ri]));
                }
                _ => {}
            }
        }
    }
}
