//! Source-level control: verified modules convert and keep their meaning, broken ones are refused.
use crate::c_effect::declarations;
use crate::ctl;
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::eff;
use tribute_passes::tribute_control_to_cps::tribute_control_to_cps;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::{IrContext, Module};

/// Debugging aid
pub fn ctlone(seed: u64) -> i32 {
    let mut rng = crate::rng::Rng::new(seed);
    let p = eff::Gen::new(&mut rng).control().program();
    let Some(text) = ctl::emit(&p, 3, 63) else {
        println!("{seed} no form");
        return 0;
    };
    let _ = std::fs::create_dir_all("/tmp/eo");
    std::fs::write(format!("/tmp/eo/t{seed}.ir"), &text).unwrap();
    let inputs: Vec<u64> = (0..16).map(|i| i * 7 + 3).collect();
    let r = match ctl::reference(&p, &inputs) {
        Ok(r) => r,
        Err(e) => {
            println!("{seed} skip {e}");
            return 0;
        }
    };
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, &text).unwrap();
    let m = Module::new(&ctx, op).unwrap();
    let d = declarations(&ctx, op);
    if let Err(e) = tribute_control_to_cps(&mut ctx, m, &d) {
        println!("{seed} refused: {e}");
        return 1;
    }
    let mut x = ctl::cps::X::new(&ctx, m, &inputs);
    let e = x.main();
    if e.is_err() || x.events != r.events {
        let n = r.events.iter().zip(&x.events).take_while(|(a, b)| a == b).count();
        println!("{seed} DIFF at {n}: {:?} / {:?} {e:?}", r.events.get(n), x.events.get(n));
        return 1;
    }
    println!("{seed} ok {} events, performs {} resumes {} used {}", r.events.len(), r.seen.performs, r.seen.resumes, r.seen.used);
    0
}

fn parse(ctx: &mut IrContext, text: &str) -> Option<Module> {
    let op = parse_module(ctx, text).ok()?;
    Module::new(ctx, op)
}

/// A module with a second program, whose functions have the same names, in a module inside it.
fn nest(a: &str, b: &str) -> String {
    let b = b.replace("@A", "@B").replace("!c", "!k").replace("!r", "!s").replacen("core.module @ctl", "core.module @inner", 1);
    let (alias, rest): (Vec<&str>, Vec<&str>) = b.lines().partition(|l| l.starts_with('!'));
    let (head, tail) = a.split_once('\n').unwrap();
    let body = tail.trim_end().strip_suffix('}').unwrap();
    format!("{head}\n{}\n{body}{}\n}}\n", alias.join("\n"), rest.join("\n"))
}

fn convert(c: &mut Case) {
    let p = eff::Gen::new(&mut c.rng).control().program();
    let (refs, style) = (c.rng.below(5), c.rng.below(32) as u32 | if c.rng.chance(25) { 32 } else { 0 });
    let Some(mut text) = ctl::emit(&p, refs, style) else {
        c.skip("a handler inside an operation that answers in place");
        return;
    };
    let mut inner = None;
    if c.rng.chance(15) {
        let q = eff::Gen::new(&mut c.rng).control().program();
        if let Some(t) = ctl::emit(&q, refs, style) {
            text = nest(&text, &t);
            inner = Some(q);
        }
    }
    let inputs: Vec<Vec<u64>> = (0..3).map(|i| (0..16).map(|k| if i == 0 { k * 7 + 3 } else { c.rng.below(64) as u64 }).collect()).collect();
    c.input(format!("; inputs {inputs:x?}\n{text}"));
    let mut ctx = IrContext::new();
    let m = parse(&mut ctx, &text).unwrap_or_else(|| panic!("harness: the program does not parse"));
    let d = declarations(&ctx, m.op());
    if let Err(e) = tribute_control_to_cps(&mut ctx, m, &d) {
        return c.violation(format!("a well-formed program is refused: {e}"));
    }
    c.st.count("programs converted", 1);
    let after = print_module(&ctx, m.op());
    if let Some(l) = after.lines().find(|l| l.contains("tribute_control.")) {
        return c.violation(format!("left in the converted module: {}", l.trim()));
    }
    if let Some(e) = crate::integrity::check_all(&ctx, m.op()).into_iter().next() {
        return c.violation(format!("converted module: {e}"));
    }
    let v = trunk_ir::validation::validate_value_integrity(&ctx, m);
    if !v.is_ok() {
        return c.violation(format!("converted module: {v}"));
    }
    let mut real = compare(c, &ctx, m, &p, &inputs);
    if let Some(q) = inner {
        let op = ctx.block(m.first_block(&ctx).unwrap()).ops.iter().copied().find(|o| ctx.op(*o).name == trunk_ir::Symbol::new("module"));
        let Some(n) = op.and_then(|o| Module::new(&ctx, o)) else {
            return c.violation("the inner module is gone");
        };
        c.st.count("modules inside modules", 1);
        real |= compare(c, &ctx, n, &q, &inputs);
    }
    if real {
        c.distinct(&text);
        c.sample(|| text);
    }
}

/// Runs both; whether anything worth comparing happened.
fn compare(c: &mut Case, ctx: &IrContext, m: Module, p: &eff::Prog, inputs: &[Vec<u64>]) -> bool {
    let mut real = false;
    for i in inputs {
        let want = match ctl::reference(p, i) {
            Ok(w) => w,
            Err(e) => {
                c.st.count(e, 1);
                continue;
            }
        };
        let mut x = ctl::cps::X::new(ctx, m, i);
        let r = x.main();
        if let Err(e) = &r {
            if e.contains("harness-limit") {
                continue;
            }
            if e.starts_with("harness") {
                panic!("{e}");
            }
        }
        let s = &want.seen;
        for (k, n) in [
            ("executions compared", 1),
            ("events compared", want.events.len() as u64),
            ("operations performed", s.performs),
            ("operations answered in place", s.fn_ops),
            ("handlers installed", s.handles),
            ("resumptions", s.resumes),
            ("resumptions whose result the arm uses", s.used),
            ("computations abandoned", s.escapes),
            ("tail transfers followed", x.transfers),
        ] {
            c.st.count(k, n);
        }
        if r.is_err() || x.events != want.events {
            let n = want.events.iter().zip(&x.events).take_while(|(a, b)| a == b).count();
            c.violation(format!("at event {n} reference {:?}; converted {:?} {}", want.events.get(n), x.events.get(n), r.err().unwrap_or_default()));
            return false;
        }
        match x.again() {
            Ok(n) => c.st.count("second uses of a resumption refused", n),
            Err(e) => {
                c.violation(format!("using a resumption twice: {e}"));
                return false;
            }
        }
        real |= s.performs + s.fn_ops > 0 && want.events.len() > 1;
    }
    real
}

/// The matching end of the region opened at the end of line `i`.
fn close(l: &[String], i: usize) -> usize {
    let mut d = 0i32;
    for (j, s) in l.iter().enumerate().skip(i) {
        let s = s.trim();
        if j > i && s.starts_with('}') {
            d -= 1;
            if d == 0 {
                return j;
            }
        }
        if s.ends_with('{') {
            d += 1;
        }
    }
    l.len() - 1
}

/// operands of an operation line: their positions in the line
fn operands(s: &str, from: usize) -> Vec<(usize, usize)> {
    let end = s.find(" {").or_else(|| s.rfind(" : ")).unwrap_or(s.len());
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = from;
    while i < end {
        if b[i] == b'%' {
            let mut j = i + 1;
            while j < end && b[j].is_ascii_digit() {
                j += 1;
            }
            v.push((i, j));
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

fn constant(t: &str) -> Option<&'static str> {
    Some(match t {
        "core.i32" => "arith.const {value = 1} : core.i32",
        "core.f64" => "arith.const {value = 1.5} : core.f64",
        "core.i1" => "arith.const {value = true} : core.i1",
        "core.nil" => "arith.const {value = unit} : core.nil",
        _ => return None,
    })
}

/// One change after which the program breaks a documented rule.
fn corrupt(c: &mut Case, l: &mut Vec<String>) -> Option<&'static str> {
    let r = &mut c.rng;
    let lines = |l: &[String], f: &dyn Fn(&str) -> bool| -> Vec<usize> { (0..l.len()).filter(|i| f(&l[*i])).collect() };
    // an arm of a resumable operation: header line, token, operation result type, answer type
    let arm = |l: &[String], i: usize| -> Option<(String, String, String)> {
        let h = &l[i];
        let at = h.find(": tribute_control.resume_token(")?;
        let tok = h[..at].rsplit(['(', ' ']).next()?.to_string();
        let inside = &h[at + ": tribute_control.resume_token(".len()..];
        let (a, b) = inside.split_once(", ")?;
        Some((tok, a.to_string(), b[..b.find(')')?].to_string()))
    };
    let arms: Vec<usize> = lines(l, &|s| s.starts_with("^a") && s.contains("resume_token("));
    Some(match r.below(24) {
        0 => {
            let v = lines(l, &|s| s.contains("= tribute_control.perform ") || s.contains("= tribute_control.call "));
            let v: Vec<usize> = v.into_iter().filter(|i| !operands(&l[*i], l[*i].find('=').unwrap()).is_empty()).collect();
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let o = operands(&l[i], l[i].find('=').unwrap());
            let (a, b) = *o.last().unwrap();
            if o.len() == 1 {
                l[i].replace_range(a..b + 1, "");
            } else {
                l[i].replace_range(o[o.len() - 2].1..b, "");
            }
            "an argument is missing"
        }
        1 => {
            let v = lines(l, &|s| (s.contains("= tribute_control.perform ") || s.contains("= tribute_control.call ")) && s.contains('%'));
            let v: Vec<usize> = v.into_iter().filter(|i| !operands(&l[*i], l[*i].find('=').unwrap()).is_empty()).collect();
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let o = operands(&l[i], l[i].find('=').unwrap());
            let (a, b) = *r.pick(&o);
            let x = l[i][a..b].to_string();
            l[i].insert_str(b, &format!(", {x}"));
            "an argument too many"
        }
        2 => {
            let v = lines(l, &|s| s.contains("= tribute_control.perform"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l[i] = if l[i].contains("operation_kind = @op") { l[i].replace("operation_kind = @op", "operation_kind = @fn") } else { l[i].replace("operation_kind = @fn", "operation_kind = @op") };
            "an operation performed as the other kind"
        }
        3 => {
            let v = lines(l, &|s| s.contains("op_name = @op"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let at = l[i].find("op_name = @op").unwrap() + "op_name = @".len();
            l[i].replace_range(at..at + 3, "nosuch");
            "an operation that is not declared"
        }
        4 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.handler "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l[i] = if l[i].contains(" kind = @op") { l[i].replace(" kind = @op", " kind = @fn") } else { l[i].replace(" kind = @fn", " kind = @op") };
            "an arm of the other kind"
        }
        5 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.handler "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let at = l[i].find("operation_result_type = ").unwrap() + "operation_result_type = ".len();
            let e = l[i][at..].find('}').unwrap() + at;
            l[i].replace_range(at..e, "core.i64");
            "an arm whose operation has another result type"
        }
        6 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.handler "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let e = close(l, i);
            let copy: Vec<String> = l[i..=e].to_vec();
            for (k, s) in copy.into_iter().enumerate() {
                l.insert(e + 1 + k, s);
            }
            "two arms for one operation"
        }
        7 => {
            let v = lines(l, &|s| s.contains("= tribute_control.resume "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let s = l[i][l[i].find("= ").unwrap()..].to_string();
            l.insert(i + 1, format!("%9001 {s}"));
            "a resumption used twice in a row"
        }
        8 => {
            // resumed again at the end of an arm that may have resumed already
            let v: Vec<usize> = arms.iter().copied().filter(|i| {
                let (t, _, _) = arm(l, *i).unwrap();
                let e = close(l, *i - 1);
                l[*i..e].iter().any(|s| s.contains(&format!("tribute_control.resume {t},")))
            }).collect();
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let (t, a, b) = arm(l, i)?;
            let e = close(l, i - 1);
            l.insert(e - 1, format!("%9001 = {}", constant(&a)?));
            l.insert(e, format!("%9002 = tribute_control.resume {t}, %9001 : {b}"));
            "a resumption used on a path on which it may have been used"
        }
        9 => {
            let v = lines(l, &|s| s.contains("= tribute_control.call ") && s.contains("callee = @f"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l[i] = l[i].replace("callee = @f", "callee = @nosuch");
            "a call of an unknown function"
        }
        10 => {
            let v = lines(l, &|s| s.contains("= tribute_control.func_ref "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l[i] = l[i].replace("func_ref = @f", "func_ref = @nosuch");
            "a reference to an unknown function"
        }
        11..=13 => {
            // any operand of a control operation, replaced by a value of a type nothing here has
            let names = ["= tribute_control.perform ", "= tribute_control.call ", "= tribute_control.call_indirect ", "= tribute_control.resume ", "tribute_control.yield ", "tribute_control.return "];
            let n = *r.pick(&names);
            let v = lines(l, &|s| s.contains(n) && !(s.contains("callee = @v_") && s.contains("nil")));
            let v: Vec<usize> = v.into_iter().filter(|i| !operands(&l[*i], l[*i].find('=').filter(|_| n.starts_with('=')).unwrap_or(0)).is_empty()).collect();
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let o = operands(&l[i], l[i].find('=').filter(|_| n.starts_with('=')).unwrap_or(0));
            let (a, b) = *r.pick(&o);
            l[i].replace_range(a..b, "%9001");
            l.insert(i, "%9001 = arith.const {value = 1} : core.i64".into());
            "an operand of the wrong type"
        }
        14 => {
            let v = lines(l, &|s| s.contains(" captures [%"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let a = l[i].find(" captures [").unwrap() + " captures [".len();
            let e = l[i][a..].find(']').unwrap() + a;
            let mut caps: Vec<String> = l[i][a..e].split(", ").map(String::from).collect();
            let what;
            if r.chance(50) {
                let k = r.below(caps.len());
                caps.remove(k);
                what = "a capture is missing";
            } else {
                let k = r.pick(&caps).clone();
                caps.push(k);
                what = "a value captured twice";
            }
            l[i].replace_range(a..e, &caps.join(", "));
            what
        }
        15 => {
            let v = lines(l, &|s| s.contains(" captures ["));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let a = l[i].find(" captures [").unwrap() + " captures [".len();
            let sep = if l[i].as_bytes()[a] == b']' { "" } else { ", " };
            l[i].insert_str(a, &format!("%9001{sep}"));
            l.insert(i, "%9001 = arith.const {value = 1} : core.i32".into());
            "a capture that is not used"
        }
        16 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.func @") && s.ends_with('{') && !s.contains("convention(direct)"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let body = l[i..close(l, i)].join("\n");
            let to = if body.contains("= tribute_control.handle ") && r.chance(50) { "evidence_direct" } else { "direct" };
            if !body.contains("= tribute_control.perform") && !body.contains("= tribute_control.handle ") {
                return None;
            }
            let at = l[i].find("convention(").unwrap() + "convention(".len();
            let e = l[i][at..].find(')').unwrap() + at;
            l[i].replace_range(at..e, to);
            "effects in a function of a weaker convention"
        }
        17 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.yield ") || s.starts_with("tribute_control.return "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l.remove(i);
            "a body without its end"
        }
        18 => {
            let i = *(!arms.is_empty()).then(|| r.pick(&arms))?;
            let (t, _, _) = arm(l, i)?;
            let e = close(l, i - 1);
            l[e - 1] = format!("tribute_control.yield {t}");
            "an arm that hands out its resumption"
        }
        19 => {
            let v = lines(l, &|s| s.contains("= tribute_control.perform"));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            l[i] = l[i].replace("{ability_ref", "{bogus = 1, ability_ref");
            "an attribute the operation does not have"
        }
        20 => {
            let v = lines(l, &|s| s.starts_with("tribute_control.func @f") && !s.starts_with("tribute_control.func @f0("));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let e = l[i].find('(').unwrap();
            l[i].replace_range(.."tribute_control.func @f".len().max(e), "tribute_control.func @f0");
            "two functions of one name"
        }
        21 => {
            // the resumption of an arm used in an arm nested in it
            let mut found = vec![];
            for i in &arms {
                let e = close(l, *i - 1);
                for j in i + 1..e {
                    if l[j].starts_with("^a") {
                        found.push((*i, j));
                    }
                }
            }
            let (i, j) = *(!found.is_empty()).then(|| r.pick(&found))?;
            let (t, a, b) = arm(l, i)?;
            l.insert(j + 1, format!("%9001 = {}", constant(&a)?));
            l.insert(j + 2, format!("%9002 = tribute_control.resume {t}, %9001 : {b}"));
            "a resumption used in the arm of another handler"
        }
        22 => {
            let v = lines(l, &|s| s.starts_with("^a") && s.contains(": core."));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let at = l[i].find(": core.").unwrap() + 2;
            let e = at + l[i][at..].find([',', ')']).unwrap();
            l[i].replace_range(at..e, "core.i64");
            "an arm with a parameter of another type"
        }
        _ => {
            let v = lines(l, &|s| s.contains("= tribute_control.handle : "));
            let i = *(!v.is_empty()).then(|| r.pick(&v))?;
            let at = l[i].find("handle : ").unwrap() + "handle : ".len();
            let e = l[i].len() - 2;
            l[i].replace_range(at..e, "core.i64");
            "a handle of another type than its completion"
        }
    })
}

fn broken(c: &mut Case) {
    let p = eff::Gen::new(&mut c.rng).control().program();
    let (refs, style) = (c.rng.below(4), c.rng.below(32) as u32 | if c.rng.chance(25) { 32 } else { 0 });
    let Some(text) = ctl::emit(&p, refs, style) else {
        c.skip("a handler inside an operation that answers in place");
        return;
    };
    let good: Vec<String> = text.lines().map(String::from).collect();
    let mut any = false;
    for _ in 0..6 {
        let mut l = good.clone();
        let Some(what) = corrupt(c, &mut l) else { continue };
        let bad = l.join("\n");
        c.input(format!("; {what}\n{bad}"));
        let mut ctx = IrContext::new();
        let m = parse(&mut ctx, &text).unwrap_or_else(|| panic!("harness: the program does not parse"));
        let d = declarations(&ctx, m.op());
        let Some(b) = parse(&mut ctx, &bad) else {
            c.st.count("broken programs refused by the parser", 1);
            continue;
        };
        let before = print_module(&ctx, b.op());
        match tribute_control_to_cps(&mut ctx, b, &d) {
            Ok(()) => return c.violation(format!("accepted: {what}")),
            Err(_) => {
                c.st.count("broken programs refused", 1);
                c.st.count(&format!("refused: {what}"), 1);
            }
        }
        if print_module(&ctx, b.op()) != before {
            return c.violation(format!("the refused module was changed ({what})"));
        }
        if let Some(e) = crate::integrity::check_links(&ctx, b.op()).into_iter().next() {
            return c.violation(format!("the refused module was damaged ({what}): {e}"));
        }
        any = true;
    }
    if any {
        c.distinct(&text);
    }
}

/// Programs on which the conversion, at the recorded commit, loses part of the computation that a
/// resumption continues: the program, what it records, what the converted program records.
const WITNESS: [(&str, &str, &[&str], &[&str]); 5] = [
    (include_str!("../witness/control-two.ir"), "an operation performed after a resumption whose result the arm uses loses the work the arm still had to do", &["i32:2a"], &["i32:29"]),
    (include_str!("../witness/control-callee.ir"), "a resumption of an operation performed by a called function does not continue the caller", &["i32:2a"], &["i32:15"]),
    (include_str!("../witness/control-inner.ir"), "a resumption of an operation performed inside another handler does not continue past that handler", &["i32:15", "i32:2a"], &["i32:15", "i32:15"]),
    (include_str!("../witness/control-completion.ir"), "a resumption of an operation performed in the completion of an inner handler does not continue past that handler", &["i32:2a"], &["i32:15"]),
    (include_str!("../witness/control-waiting.ir"), "a resumption does not continue an arm that waits for another resumption", &["i32:2a"], &["i32:15"]),
];

fn witness(c: &mut Case) {
    let (text, what, right, wrong) = WITNESS[c.idx as usize];
    c.input(text.to_string());
    let mut ctx = IrContext::new();
    let m = parse(&mut ctx, text).unwrap_or_else(|| panic!("harness: the witness does not parse"));
    let d = declarations(&ctx, m.op());
    if let Err(e) = tribute_control_to_cps(&mut ctx, m, &d) {
        return c.violation(format!("a well-formed program is refused: {e}"));
    }
    let mut x = ctl::cps::X::new(&ctx, m, &[]);
    let r = x.main();
    let got: Vec<String> = x.events.iter().map(|e| e.args.join(",")).collect();
    if r.is_ok() && got == right {
        return;
    }
    if r.is_ok() && got == wrong {
        c.st.known.push(what.into());
    } else {
        c.violation(format!("recorded {got:?}, expected {right:?} {}", r.err().unwrap_or_default()));
    }
}

pub fn check_control(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "convert", cfg.n(6000, 200_000), convert);
    st.merge(run_cases(cfg, "broken", cfg.n(3000, 100_000), broken));
    st.merge(run_cases(cfg, "witness", 5, witness));
    st
}
