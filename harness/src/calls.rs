//! Programs about calling: many parameters of mixed types in every position, direct, indirect and
//! tail calls, zero-width parameters, qualified names.
use crate::rng::Rng;
use std::fmt::Write;

const TYS: [&str; 8] = ["i32", "i64", "f64", "i32", "f32", "i16", "i8", "i1"];

struct F {
    name: String,
    params: Vec<&'static str>,
    ret: &'static str,
    cps: bool,
}

struct G<'r> {
    rng: &'r mut Rng,
    out: String,
    n: u32,
    fs: Vec<F>,
}

impl G<'_> {
    fn v(&mut self) -> String {
        self.n += 1;
        format!("%c{}", self.n)
    }

    fn value(&mut self, sc: &[(String, &'static str)], t: &'static str) -> String {
        let c: Vec<&(String, &str)> = sc.iter().filter(|(_, x)| *x == t).collect();
        if !c.is_empty() && self.rng.chance(75) {
            return self.rng.pick(&c).0.clone();
        }
        let v = self.v();
        if t == "nil" {
            let _ = writeln!(self.out, "    {v} = arith.const {{value = unit}} : core.nil");
        } else {
            let k = self.v();
            let i = self.rng.below(16);
            let _ = writeln!(self.out, "    {k} = arith.const {{value = {i}}} : core.i32");
            let _ = writeln!(self.out, "    {v} = func.call {k} {{callee = @v_in_{t}}} : core.{t}");
        }
        v
    }

    fn rec(&mut self, v: &str, t: &str) {
        if t == "nil" {
            return;
        }
        let r = self.v();
        let _ = writeln!(self.out, "    {r} = func.call {v} {{callee = @v_rec_{t}}} : core.nil");
    }

    fn args(&mut self, sc: &[(String, &'static str)], ps: &[&'static str]) -> Vec<String> {
        ps.iter().map(|t| self.value(sc, t)).collect()
    }

    fn fty(ret: &str, ps: &[&str]) -> String {
        let mut s = format!("core.func(core.{ret}");
        for p in ps {
            let _ = write!(s, ", core.{p}");
        }
        s + ")"
    }

    /// an ordinary call of function `i`
    fn call(&mut self, sc: &mut Vec<(String, &'static str)>, i: usize, indirect: bool) {
        let (name, ps, ret, cps) = { let f = &self.fs[i]; (f.name.clone(), f.params.clone(), f.ret, f.cps) };
        let a = self.args(sc, &ps);
        let r = self.v();
        if indirect && !cps {
            let c = self.v();
            let _ = writeln!(self.out, "    {c} = func.constant {{func_ref = {name}}} : {}", Self::fty(ret, &ps));
            let mut all = vec![c];
            all.extend(a);
            let _ = writeln!(self.out, "    {r} = func.call_indirect {} : core.{ret}", all.join(", "));
        } else {
            let sep = if a.is_empty() { "" } else { " " };
            let _ = writeln!(self.out, "    {r} = func.call{sep}{} {{callee = {name}}} : core.{ret}", a.join(", "));
        }
        self.rec(&r, ret);
        sc.push((r, ret));
    }

    fn tail(&mut self, sc: &[(String, &'static str)], i: usize, indirect: bool) {
        let (name, ps) = { let f = &self.fs[i]; (f.name.clone(), f.params.clone()) };
        let a = self.args(sc, &ps);
        if indirect {
            let c = self.v();
            let _ = writeln!(self.out, "    {c} = func.constant {{func_ref = {name}}} : {}", Self::fty("never", &ps));
            let mut all = vec![c];
            all.extend(a);
            let _ = writeln!(
                self.out,
                "    func.tail_call_indirect {} {{func.indirect_call_signature = {}, tribute.calling_convention = 2}}",
                all.join(", "),
                Self::fty("nil", &ps)
            );
        } else {
            let sep = if a.is_empty() { "" } else { " " };
            let _ = writeln!(self.out, "    func.tail_call{sep}{} {{callee = {name}, tribute.calling_convention = 2}}", a.join(", "));
        }
    }

    fn nil_return(&mut self) {
        let z = self.v();
        let _ = writeln!(self.out, "    {z} = arith.const {{value = unit}} : core.nil\n    func.return {z}");
    }
}

/// `deep`: one tail-recursive loop runs that many times.
pub fn module(rng: &mut Rng, deep: u32) -> String {
    let mut g = G { rng, out: "core.module @prog {\n".into(), n: 0, fs: vec![] };
    for t in ["i1", "i8", "i16", "i32", "i64", "f32", "f64"] {
        let _ = writeln!(g.out, "  func.func @v_in_{t}(%k: core.i32) -> core.{t} attributes {{abi = \"C\"}} {{ func.unreachable }}");
        let _ = writeln!(g.out, "  func.func @v_rec_{t}(%x: core.{t}) -> core.nil attributes {{abi = \"C\"}} {{ func.unreachable }}");
    }
    let n = 3 + g.rng.below(5);
    for i in 0..n {
        let cps = g.rng.chance(40) || i == 0;
        let np = match g.rng.below(10) {
            0 => 0,
            1..=4 => 1 + g.rng.below(5),
            _ => 4 + g.rng.below(11),
        };
        let uni = g.rng.chance(40).then(|| *g.rng.pick(&TYS));
        let mut ps: Vec<&'static str> = (0..np)
            .map(|_| match uni {
                Some(u) if g.rng.chance(90) => u,
                _ if g.rng.chance(12) => "nil",
                _ => *g.rng.pick(&TYS),
            })
            .collect();
        if cps {
            // the signature recorded on an indirect tail call is the physical one, where a
            // boolean no longer has its own type
            ps.iter_mut().filter(|t| **t == "i1").for_each(|t| *t = "i8");
        }
        let looping = cps && (i == 0 || g.rng.chance(35));
        if looping {
            ps.insert(g.rng.below(ps.len() + 1), "i32");
        }
        let ret = if cps || g.rng.chance(10) { "nil" } else { *g.rng.pick(&TYS) };
        // two functions may share their last name component
        let name = match g.rng.below(4) {
            0 => format!("@\"m{i}::f\""),
            1 => format!("@\"m{i}::sub::f\""),
            _ => format!("@f{i}"),
        };
        let names: Vec<String> = ps.iter().map(|_| g.v()).collect();
        let sig: Vec<String> = names.iter().zip(&ps).map(|(v, t)| format!("{v}: core.{t}")).collect();
        let at = if cps { " attributes {tribute.calling_convention = 2}" } else { "" };
        let _ = writeln!(g.out, "  func.func {name}({}) -> core.{ret}{at} {{", sig.join(", "));
        let mut sc: Vec<(String, &'static str)> = names.iter().cloned().zip(ps.iter().copied()).collect();
        if looping {
            // count a parameter down, shuffling the others of equal type, then show them all
            let k = ps.iter().enumerate().filter(|(_, t)| **t == "i32").map(|(i, _)| i).next().unwrap();
            let (m, n, z, c) = (g.v(), g.v(), g.v(), g.v());
            let bound = if i == 0 && deep > 0 { deep } else { 3 + g.rng.below(20) as u32 };
            // the counter, brought into range whatever it was
            let _ = writeln!(g.out, "    {m} = arith.const {{value = {bound}}} : core.i32");
            let _ = writeln!(g.out, "    {z} = arith.const {{value = 0}} : core.i32");
            let _ = writeln!(g.out, "    {c} = arith.cmpi {}, {z} {{predicate = @sle}} : core.i1", names[k]);
            let big = g.v();
            let _ = writeln!(g.out, "    {big} = arith.cmpi {}, {m} {{predicate = @sgt}} : core.i1", names[k]);
            let _ = writeln!(g.out, "    {n} = scf.if {big} : core.i32 {{\n    scf.yield {m}\n    }} {{\n    scf.yield {}\n    }}", names[k]);
            let r = g.v();
            let _ = writeln!(g.out, "    {r} = scf.if {c} : core.nil {{");
            for (v, t) in &sc {
                g.rec(v, t);
            }
            g.nil_return();
            let _ = writeln!(g.out, "    }} {{");
            let (one, d) = (g.v(), g.v());
            let _ = writeln!(g.out, "    {one} = arith.const {{value = 1}} : core.i32\n    {d} = arith.subi {n}, {one} : core.i32");
            let mut a = names.clone();
            a[k] = d;
            for t in TYS {
                let idx: Vec<usize> = (0..ps.len()).filter(|j| ps[*j] == t && *j != k).collect();
                if idx.len() > 1 && g.rng.chance(80) {
                    let first = a[idx[0]].clone();
                    for w in idx.windows(2) {
                        a[w[0]] = a[w[1]].clone();
                    }
                    a[*idx.last().unwrap()] = first;
                }
            }
            if g.rng.chance(50) {
                let _ = writeln!(g.out, "    func.tail_call {} {{callee = {name}, tribute.calling_convention = 2}}", a.join(", "));
            } else {
                let cv = g.v();
                let _ = writeln!(g.out, "    {cv} = func.constant {{func_ref = {name}}} : {}", G::fty("never", &ps));
                a.insert(0, cv);
                let _ = writeln!(
                    g.out,
                    "    func.tail_call_indirect {} {{func.indirect_call_signature = {}, tribute.calling_convention = 2}}",
                    a.join(", "),
                    G::fty("nil", &ps)
                );
            }
            let _ = writeln!(g.out, "    }}\n    func.unreachable\n  }}");
        } else {
            for (v, t) in sc.clone() {
                g.rec(&v, t);
            }
            if !g.fs.is_empty() {
                for _ in 0..g.rng.below(3) {
                    let j = g.rng.below(g.fs.len());
                    let ind = g.rng.chance(50);
                    g.call(&mut sc, j, ind);
                }
            }
            let targets: Vec<usize> = (0..g.fs.len()).filter(|j| g.fs[*j].cps).collect();
            if cps && !targets.is_empty() && g.rng.chance(70) {
                let t = *g.rng.pick(&targets);
                let ind = g.rng.chance(50);
                g.tail(&sc, t, ind);
            } else if ret == "nil" {
                g.nil_return();
            } else {
                let v = g.value(&sc, ret);
                let _ = writeln!(g.out, "    func.return {v}");
            }
            let _ = writeln!(g.out, "  }}");
        }
        g.fs.push(F { name, params: ps, ret, cps });
    }
    let _ = writeln!(g.out, "  func.func @main() -> core.nil {{");
    let mut sc = vec![];
    for i in 0..g.fs.len() {
        for _ in 0..1 + g.rng.below(2) {
            let ind = g.rng.chance(50);
            g.call(&mut sc, i, ind);
        }
    }
    g.nil_return();
    g.out.push_str("  }\n}\n");
    g.out
}
