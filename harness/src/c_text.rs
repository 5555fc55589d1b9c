//! The text form of the IR: faithful round trips (C05) and a total parser (C06).
use crate::drv::{Case, Cfg, Stats, guard, run_cases};
use crate::integrity;
use crate::irgen::{self, IrCfg, IrGen};
use crate::progen::{Features, Gen};
use crate::rng::{Rng, hash_bytes};
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::{IrContext, Module, OpRef};

/// Print `op`, parse the text in a fresh context and compare; returns the text.
fn round_trip(c: &mut Case, ctx: &IrContext, op: OpRef) -> bool {
    let t1 = print_module(ctx, op);
    c.input(t1.clone());
    c.st.count("modules printed", 1);
    c.st.count("text bytes", t1.len() as u64);
    let mut c2 = IrContext::new();
    let op2 = match parse_module(&mut c2, &t1) {
        Ok(o) => o,
        Err(e) => {
            c.violation(format!("printed module does not parse: {e}"));
            return false;
        }
    };
    let (a, b) = (irgen::dump(ctx, op), irgen::dump(&c2, op2));
    c.st.count("structure lines compared", a.lines().count() as u64);
    if a != b {
        c.violation(format!("module changed by print and parse: {}", irgen::diff(&a, &b)));
        return false;
    }
    let errs = integrity::check_links(&c2, op2);
    if !errs.is_empty() {
        c.violation(format!("parsed module is inconsistent: {}", errs[0]));
        return false;
    }
    let t2 = print_module(&c2, op2);
    let mut c3 = IrContext::new();
    let op3 = match parse_module(&mut c3, &t2) {
        Ok(o) => o,
        Err(e) => {
            c.violation(format!("second print does not parse: {e}"));
            return false;
        }
    };
    let d3 = irgen::dump(&c3, op3);
    if d3 != a {
        c.violation(format!("module changed by the second print and parse: {}", irgen::diff(&a, &d3)));
        return false;
    }
    let t3 = print_module(&c3, op3);
    let nested = t1.matches("core.module").count() > 1;
    if !nested && t3 != t2 {
        c.violation(format!("text keeps changing between round trips: {}", irgen::diff(&t2, &t3)));
        return false;
    }
    if t1 == t2 {
        c.st.count("text identical at the first round trip", 1);
    } else if std::env::var("VH_T1").is_ok() {
        eprintln!("{}", irgen::diff(&t1, &t2));
    }
    c.st.distinct.insert(hash_bytes(a.as_bytes()));
    true
}

pub fn ir_cfg(r: &mut Rng) -> IrCfg {
    IrCfg {
        depth: r.below(4),
        max_ops: *r.pick(&[3, 10, 30, 80]),
        max_blocks: 1 + r.below(5),
        nested_modules: r.chance(30),
        attrs: r.chance(85),
        aliases: r.chance(40),
        weird_names: r.chance(40),
        crowded: r.chance(25),
        wide: *r.pick(&[4, 4, 4, 10]),
    }
}

pub fn check_round_trip(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("A module is counted distinct by its canonical structure dump; both random API-built modules and compiler-produced modules at every stage are printed, parsed in a fresh context and compared.".into());
    st.merge(run_cases(cfg, "built", cfg.n(6000, 120_000), |c| {
        let mut ctx = IrContext::new();
        let mut r = c.rng.clone();
        let ic = ir_cfg(&mut r);
        let mut g = IrGen::new(&mut ctx, &mut r, ic);
        g.exotic = cfg!(feature = "full");
        let op = g.module(0);
        if round_trip(c, &ctx, op) && c.idx < 2 {
            let t = print_module(&ctx, op);
            c.sample(|| t);
        }
    }));
    st.merge(run_cases(cfg, "programs", cfg.n(700, 12_000), |c| {
        let mut r = c.rng.clone();
        let f = if r.chance(50) { Features::native() } else { Features::opt() };
        let text = Gen::new(&mut r, f).module();
        let mut ctx = IrContext::new();
        let op = match parse_module(&mut ctx, &text) {
            Ok(o) => o,
            Err(e) => panic!("harness-env: generated program does not parse: {e}\n{text}"),
        };
        if !round_trip(c, &ctx, op) {
            return;
        }
        let m = Module::new(&ctx, op).unwrap();
        for _ in 0..1 + r.below(4) {
            let s = crate::c_opt::any_step(&mut r);
            if guard(|| crate::c_opt::apply(&mut ctx, m, &s)).is_err() {
                // the pass itself is judged by another check
                c.skip("pass failed");
                return;
            }
            c.st.count(&format!("after {}", crate::c_opt::step_name(&s)), 1);
            if !round_trip(c, &ctx, op) {
                return;
            }
        }
    }));
    #[cfg(feature = "full")]
    st.merge(run_cases(cfg, "pipeline", cfg.n(240, 4000), |c| {
        let mut r = c.rng.clone();
        let text = Gen::new(&mut r, Features::native()).module();
        let mut ctx = IrContext::new();
        let op = parse_module(&mut ctx, &text).unwrap_or_else(|e| panic!("harness-env: {e}"));
        let m = Module::new(&ctx, op).unwrap();
        let o = crate::pipeline::NativeOpts::from_bits(r.u64() as u32);
        if r.chance(50) && !matches!(guard(|| crate::pipeline::shared(&mut ctx, m)), Ok(Ok(_))) {
            c.skip("shared pipeline failed");
            return;
        }
        if !matches!(guard(|| crate::pipeline::native_target(&mut ctx, m)), Ok(Ok(_))) {
            c.skip("target pipeline failed");
            return;
        }
        if !round_trip(c, &ctx, op) {
            return;
        }
        if !matches!(guard(|| crate::pipeline::native_prepare(&mut ctx, m, o)), Ok(Ok(_))) {
            c.skip("native pipeline failed");
            return;
        }
        round_trip(c, &ctx, op);
    }));
    if cfg.shard == 0 && cfg.only.is_none() {
        known(&mut st);
    }
    st
}

/// Listed findings (known-findings.txt): observed again here on the exact inputs that fail.
fn known(st: &mut Stats) {
    for (name, bits) in [("NaN", f64::NAN.to_bits()), ("infinity", f64::INFINITY.to_bits()), ("-infinity", f64::NEG_INFINITY.to_bits())] {
        let mut ctx = IrContext::new();
        let text = "core.module @m {\n  func.func @f() -> core.f64 {\n    %0 = arith.const {value = 1.5} : core.f64\n    func.return %0\n  }\n}\n";
        let op = parse_module(&mut ctx, text).unwrap();
        let f = Module::new(&ctx, op).unwrap().ops(&ctx)[0];
        let b = ctx.region(ctx.op(f).regions[0]).blocks[0];
        let k = ctx.block(b).ops[0];
        ctx.op_mut(k).attributes.insert(trunk_ir::Symbol::new("value"), trunk_ir::types::Attribute::FloatBits(bits));
        let t = print_module(&ctx, op);
        let mut c2 = IrContext::new();
        let same = parse_module(&mut c2, &t).is_ok_and(|o| irgen::dump(&c2, o) == irgen::dump(&ctx, op));
        if !same {
            st.known.push(format!("a module with a {name} float constant does not survive printing and parsing"));
        }
    }
    #[cfg(feature = "full")]
    {
        let mut ctx = IrContext::new();
        let text = "core.module @m {\n  func.func @f() -> core.i32 {\n    %0 = closure.lambda(%1: core.i32) -> core.tuple(core.i32) {} {mark = 1} {\n      func.return %1\n    }\n    func.unreachable\n  }\n}\n";
        let op = parse_module(&mut ctx, text).unwrap();
        let t = print_module(&ctx, op);
        let mut c2 = IrContext::new();
        let same = parse_module(&mut c2, &t).is_ok_and(|o| irgen::dump(&c2, o) == irgen::dump(&ctx, op));
        if !same {
            st.known.push("attributes of a closure literal whose result type has parameters but no attributes are read back as attributes of that type".into());
        }
    }
}

const TOKENS: [&str; 52] = [
    "core.module", "func.func", "@", "@x", "@\"", "%0", "%1", "%999", "%", "^bb0", "^bb1", "^", "{", "}", "(", ")", "[", "]", ",", ":", "=", "->", "!t0", "!", "!\"a\"",
    "core.i32", "core.func(core.i32)", "b\"", "\"", "\\", "\\x", "\\xzz", "loc(", "loc(\"a\" 1:2)", "true", "unit", "-", "-0.0", "1e5", "170141183460469231731687303715884105728",
    "99999999999999999999999999999999999999999999", "0.", ".5", "{}", "()", "attributes", "func.return", "arith.const {value = 1} : core.i32", "\u{0}", "é", "\u{2028}", "scf.if %0 : core.i32 {",
];

fn mutate(r: &mut Rng, base: &str, other: &str) -> String {
    let mut s: Vec<char> = base.chars().collect();
    let o: Vec<char> = other.chars().collect();
    let k = *r.pick(&[1usize, 1, 1, 2, 3, 6, 20]);
    for _ in 0..k {
        let n = s.len();
        let at = if n == 0 { 0 } else { r.below(n + 1) };
        match r.below(13) {
            0 => s.truncate(at),
            1 => {
                let e = (at + 1 + r.below(12)).min(n);
                s.drain(at..e.max(at));
            }
            2 => {
                let e = (at + 1 + r.below(200)).min(n);
                s.drain(at..e.max(at));
            }
            3 => {
                let e = (at + 1 + r.below(120)).min(n);
                let dup: Vec<char> = s[at..e.max(at)].to_vec();
                let to = r.below(n + 1);
                s.splice(to..to, dup);
            }
            4..=6 => {
                let t = *r.pick(&TOKENS);
                s.splice(at..at, t.chars());
            }
            7 => {
                if at < n {
                    s[at] = char::from_u32(r.below(0x250) as u32).unwrap_or('?');
                }
            }
            8 => {
                // replace one identifier-like token by another from the text
                let starts: Vec<usize> = (1..n).filter(|&i| s[i].is_alphanumeric() && !s[i - 1].is_alphanumeric()).collect();
                if starts.len() > 1 {
                    let (a, b) = (*r.pick(&starts), *r.pick(&starts));
                    let end = |i: usize| (i..n).find(|&j| !s[j].is_alphanumeric()).unwrap_or(n);
                    let t: Vec<char> = s[b..end(b)].to_vec();
                    s.splice(a..end(a), t);
                }
            }
            9 => {
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let e = (a + 1 + r.below(150)).min(o.len());
                    s.splice(at..at, o[a..e].iter().copied());
                }
            }
            10 => {
                // repeated brackets
                let d = 1 + r.below(60);
                let t = *r.pick(&["[", "(", "{", "core.x(", "a.b {\n", "[[", "{k = ", "core.x() {k = "]);
                let ins: String = t.repeat(d);
                s.splice(at..at, ins.chars());
            }
            11 => {
                // delete one bracket or quote
                let q: Vec<usize> = (0..n).filter(|&i| "{}()[]\"^%@!:=,".contains(s[i])).collect();
                if !q.is_empty() {
                    s.remove(*r.pick(&q));
                }
            }
            _ => {
                // swap two lines
                let t: String = s.iter().collect();
                let mut l: Vec<&str> = t.split('\n').collect();
                if l.len() > 2 {
                    let (a, b) = (r.below(l.len()), r.below(l.len()));
                    l.swap(a, b);
                }
                s = l.join("\n").chars().collect();
            }
        }
    }
    s.into_iter().collect()
}

fn gen_text(r: &mut Rng) -> String {
    if r.chance(50) {
        let mut ctx = IrContext::new();
        let mut ic = ir_cfg(r);
        ic.max_ops = ic.max_ops.min(20);
        let mut g = IrGen::new(&mut ctx, r, ic);
        g.exotic = cfg!(feature = "full");
        let op = g.module(0);
        print_module(&ctx, op)
    } else {
        Gen::new(r, Features::opt()).module()
    }
}

pub fn check_parser(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("An input is counted distinct by the hash of its text; each is parsed twice (fresh context, and a context that already saw other inputs) under panic, hang, position and structure monitors.".into());
    st.merge(run_cases(cfg, "mutate", cfg.n(3000, 60_000), |c| {
        let mut r = c.rng.clone();
        let (base, other) = (gen_text(&mut r), gen_text(&mut r));
        let mut shared = IrContext::new();
        for _ in 0..12 {
            let t = if r.chance(5) { crate::irgen::rand_string(&mut r).repeat(1 + r.below(20)) } else { mutate(&mut r, &base, &other) };
            c.input(t.clone());
            let mut ctx = IrContext::new();
            let a = parse_module(&mut ctx, &t);
            let b = parse_module(&mut shared, &t);
            c.st.count("inputs parsed", 2);
            c.st.distinct.insert(hash_bytes(t.as_bytes()));
            match (a, b) {
                (Err(a), Err(b)) => {
                    c.st.count("rejected", 1);
                    for e in [&a, &b] {
                        if e.offset > t.len() || !t.is_char_boundary(e.offset) {
                            c.violation(format!("error position {} is outside the text of {} bytes", e.offset, t.len()));
                            return;
                        }
                        if e.message.is_empty() {
                            c.violation("error without a message");
                            return;
                        }
                    }
                    if a.offset != b.offset || a.message != b.message {
                        c.violation(format!("different errors for the same text: {a} / {b}"));
                        return;
                    }
                }
                (Ok(a), Ok(b)) => {
                    c.st.count("accepted", 1);
                    for (cx, o) in [(&ctx, a), (&shared, b)] {
                        let e = integrity::check_links(cx, o);
                        if !e.is_empty() {
                            c.violation(format!("accepted text gives an inconsistent module: {}", e[0]));
                            return;
                        }
                    }
                    let (x, y) = (irgen::dump(&ctx, a), irgen::dump(&shared, b));
                    if x != y || x.contains("v?") {
                        c.violation(format!("the same text gives different modules: {}", irgen::diff(&x, &y)));
                        return;
                    }
                    if c.idx < 8 {
                        let tt = t.clone();
                        c.sample(|| tt);
                    }
                }
                (a, b) => {
                    c.violation(format!("text is accepted in one context and rejected in another: {:?} {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string())));
                    return;
                }
            }
        }
    }));
    st
}
