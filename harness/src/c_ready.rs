//! The checks in front of the backends: verdicts on lowered modules and on modules with one
//! residue put somewhere in them (C19).
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::pipeline::{self, NativeOpts};
use crate::progen::{Features, Gen};
use crate::rng::Rng;
use std::ops::ControlFlow;
use tribute_passes::backend_ready::{TributeBackend, verify_tribute_backend_ready};
use trunk_ir::context::{BlockArgData, OperationDataBuilder};
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
use trunk_ir::walk::{WalkAction, walk_op};
use trunk_ir::{BlockRef, IrContext, Module, OpRef, Span, Symbol, TypeRef};
use trunk_ir_cranelift_backend::emit_module_to_native;
use trunk_ir_wasm_backend::emit_module_to_wasm;

const CARRIER: &str = "__tribute_cps_control";

fn load(text: &str) -> (IrContext, Module) {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let m = Module::new(&ctx, op).unwrap();
    (ctx, m)
}

fn all_ops(ctx: &IrContext, root: OpRef) -> Vec<OpRef> {
    let mut v = vec![];
    let _ = walk_op::<()>(ctx, root, &mut |o| {
        v.push(o);
        ControlFlow::Continue(WalkAction::Advance)
    });
    v
}

fn all_blocks(ctx: &IrContext, root: OpRef) -> Vec<BlockRef> {
    all_ops(ctx, root).into_iter().flat_map(|o| ctx.op(o).regions.iter().flat_map(|r| ctx.region(*r).blocks.iter().copied()).collect::<Vec<_>>()).collect()
}

fn ty(ctx: &mut IrContext, d: &str, n: &str) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n)).build())
}

/// A type that no surface of this target may show, with its name.
fn bad_type(ctx: &mut IrContext, r: &mut Rng, native: bool) -> (TypeRef, String) {
    let mut c = vec![
        ("tribute_rt", "anyref"),
        ("tribute_rt", "int"),
        ("ability", "evidence_ptr"),
        ("ability", "perform"),
        ("tribute_control", "computation"),
        ("closure", "closure"),
        ("core", "never"),
        ("core", "tuple"),
        ("func", "ptr"),
        ("cont", "step"),
        ("zzz", "i32"),
        ("core", "i33"),
        ("adt", "E$U"),
    ];
    c.extend(if native { [("wasm", "anyref"), ("wasm", "funcref"), ("wasm", "i31ref")] } else { [("clif", "i64"), ("wasm", "nothing"), ("adt", "slice")] });
    let (d, n) = *r.pick(&c);
    let mut b = TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n));
    if n == "E$U" && r.chance(50) {
        b = b.attr("is_variant", Attribute::Bool(false));
    }
    if d == "closure" || n == "tuple" {
        let i = ty(ctx, "core", "i32");
        let f = ctx.types.intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("func")).param(i).build());
        b = b.param(f);
    }
    (ctx.types.intern(b.build()), format!("{d}.{n}"))
}

/// A type that is fine in attributes but that this target has no values of.
fn metadata_only(ctx: &mut IrContext, r: &mut Rng, native: bool) -> (TypeRef, String) {
    if native {
        let i = ty(ctx, "core", "i32");
        let (d, n) = *r.pick(&[("core", "func"), ("core", "bytes"), ("core", "array"), ("core", "ref"), ("adt", "struct"), ("adt", "enum")]);
        let mut b = TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n));
        if d == "core" && n != "bytes" {
            b = b.param(i);
        }
        (ctx.types.intern(b.build()), format!("{d}.{n}"))
    } else {
        let n = *r.pick(&["i8", "i16", "ref"]);
        (ty(ctx, "core", n), format!("core.{n}"))
    }
}

/// Hide a type inside others that are fine in attributes.
fn wrap(ctx: &mut IrContext, r: &mut Rng, mut t: TypeRef, carrier: bool) -> TypeRef {
    for _ in 0..r.below(4) {
        let i = ty(ctx, "core", "i32");
        let sym = |s: &str| Symbol::from_dynamic(s);
        t = match r.below(if carrier { 2 } else { 9 }) {
            0 => {
                let f = Attribute::List(vec![
                    Attribute::List(vec![Attribute::Symbol(sym("a")), Attribute::Type(i)]),
                    Attribute::List(vec![Attribute::Symbol(sym("b")), Attribute::Type(t)]),
                ]);
                ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr("fields", f).attr("name", Attribute::Symbol(sym("S"))).build())
            }
            1 => {
                let v = Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(sym("A")), Attribute::List(vec![Attribute::Type(i), Attribute::Type(t)])])]);
                ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("enum")).attr("variants", v).attr("name", Attribute::Symbol(sym("E"))).build())
            }
            2 => ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("array")).param(t).build()),
            3 => ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("ref")).param(t).build()),
            4 => ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).params([i, t]).build()),
            5 => ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("bytes")).attr("of", Attribute::Type(t)).build()),
            6 => ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("func")).params([i, i]).attr("of", Attribute::Type(t)).build()),
            7 => {
                // a wide layout
                let n = 3 + r.below(18);
                let at = r.below(n);
                let f = (0..n).map(|k| Attribute::List(vec![Attribute::Symbol(sym(&format!("f{k}"))), Attribute::Type(if k == at { t } else { i })])).collect();
                ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr("fields", Attribute::List(f)).attr("name", Attribute::Symbol(sym("W"))).build())
            }
            _ => ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("E$T")).attr("is_variant", Attribute::Bool(true)).attr("base", Attribute::Type(t)).build()),
        };
    }
    t
}

fn in_attribute(r: &mut Rng, mut a: Attribute) -> Attribute {
    for _ in 0..r.below(3) {
        let mut v = vec![Attribute::Int(1), Attribute::Bool(true), Attribute::String("x".into())];
        if r.chance(20) {
            v = v.into_iter().cycle().take(20).collect();
        }
        let n = v.len() + 1;
        v.truncate(r.below(n));
        let at = r.below(v.len() + 1);
        v.insert(at, a);
        a = Attribute::List(v);
    }
    a
}

struct Target {
    native: bool,
    dialect: &'static str,
    ready: TributeBackend,
}

/// What was put in, what the verdict has to name (if anything), and whether emission has to
/// refuse it as well.
struct Injected {
    kind: &'static str,
    what: String,
    names: Vec<String>,
    illegal: bool,
    operation: bool,
}

fn location(ctx: &mut IrContext) -> Location {
    let p = ctx.paths.intern("r".to_owned());
    Location::new(p, Span::new(0, 0))
}

fn insert(ctx: &mut IrContext, r: &mut Rng, m: Module, op: OpRef, into: Option<BlockRef>) -> String {
    let bs = all_blocks(ctx, m.op());
    let b = into.unwrap_or_else(|| *r.pick(&bs));
    let ops = ctx.block(b).ops.to_vec();
    let at = r.below(ops.len() + 1);
    if at < ops.len() {
        ctx.insert_op_before(b, ops[at], op);
    } else {
        ctx.push_op(b, op);
    }
    format!("block {} position {at} of {}", bs.iter().position(|x| *x == b).unwrap_or(0), ops.len())
}

fn inject(ctx: &mut IrContext, r: &mut Rng, m: Module, t: &Target) -> Option<Injected> {
    let loc = location(ctx);
    let s = |x: &str| Symbol::from_dynamic(x);
    let ops = all_ops(ctx, m.op());
    let inner: Vec<OpRef> = ops.iter().copied().filter(|o| *o != m.op()).collect();
    let any = *r.pick(&ops);
    let key = ["note", "layout", "zz", "elem", "callee_note"][r.below(5)];
    let out = |kind, what: String, names: Vec<String>, illegal, operation| Some(Injected { kind, what, names, illegal, operation });
    match r.below(17) {
        0..=3 => {
            let mut c = vec![
                ("func", "call"), ("func", "return"), ("func", "func"), ("arith", "addi"), ("arith", "const"), ("scf", "if"), ("scf", "loop"), ("cf", "br"),
                ("core", "unrealized_conversion_cast"), ("tribute_rt", "retain"), ("tribute_rt", "release"), ("adt", "struct_new"), ("ability", "perform"), ("effect", "push"),
                ("closure", "new"), ("tribute_control", "resume"), ("mem", "load"), ("zzz", "q"), ("clifx", "iconst"), ("wasm2", "nop"), ("core", "modules"),
            ];
            c.push(if t.native { ("wasm", "nop") } else { ("clif", "iconst") });
            if !t.native {
                c.push(("wasm_gc", "struct_new"));
            }
            let (d, n) = *r.pick(&c);
            let mut b = OperationDataBuilder::new(loc, s(d), s(n));
            if r.chance(40) {
                let i = ty(ctx, "core", "i32");
                b = b.result(i);
            }
            let b = b.build(ctx);
            let op = ctx.create_op(b);
            let at = insert(ctx, r, m, op, None);
            out("operation", format!("{d}.{n} at {at}"), vec![format!("{d}.{n}")], true, true)
        }
        4 => {
            // an operation of the target's own dialect
            let b = OperationDataBuilder::new(loc, s(t.dialect), s("nop")).build(ctx);
            let op = ctx.create_op(b);
            let at = insert(ctx, r, m, op, None);
            out("own operation", format!("{}.nop at {at}", t.dialect), vec![], false, false)
        }
        5 => {
            let (x, n) = if r.chance(60) { bad_type(ctx, r, t.native) } else { metadata_only(ctx, r, t.native) };
            let with: Vec<OpRef> = inner.iter().copied().filter(|o| !ctx.op_result_types(*o).is_empty()).collect();
            if with.is_empty() {
                return None;
            }
            let o = *r.pick(&with);
            ctx.set_op_result_type(o, 0, x);
            out("result type", format!("{n} as result of {}.{}", ctx.op(o).dialect, ctx.op(o).name), vec![n], true, false)
        }
        6 => {
            let (x, n) = if r.chance(60) { bad_type(ctx, r, t.native) } else { metadata_only(ctx, r, t.native) };
            let bs = all_blocks(ctx, m.op());
            let b = *r.pick(&bs);
            let k = ctx.block(b).args.len();
            if k > 0 && r.chance(50) {
                ctx.set_block_arg_type(b, r.below(k) as u32, x);
            } else {
                ctx.add_block_arg(b, BlockArgData { ty: x, attrs: Default::default() });
            }
            out("block argument type", n.clone(), vec![n], true, false)
        }
        7 | 8 => {
            let (x, n) = bad_type(ctx, r, t.native);
            let w = wrap(ctx, r, x, false);
            let a = in_attribute(r, Attribute::Type(w));
            ctx.op_mut(any).attributes.insert(s(key), a);
            out("attribute type", format!("{n} in attribute of {}.{}", ctx.op(any).dialect, ctx.op(any).name), vec![n], true, false)
        }
        9 => {
            // fine in an attribute
            let (x, n) = metadata_only(ctx, r, t.native);
            let w = wrap(ctx, r, x, false);
            let a = in_attribute(r, Attribute::Type(w));
            ctx.op_mut(any).attributes.insert(s(key), a);
            out("own attribute type", n, vec![], false, false)
        }
        10 => {
            // the callable signature
            let fs: Vec<OpRef> = inner.iter().copied().filter(|o| ctx.op(*o).dialect == s(t.dialect) && ctx.op(*o).name == s("func")).collect();
            if fs.is_empty() {
                return None;
            }
            let f = *r.pick(&fs);
            let i = ty(ctx, "core", "i32");
            if r.chance(20) {
                ctx.op_mut(f).attributes.insert(s("type"), Attribute::Type(i));
                return out("signature", "not a function type".into(), vec!["core.i32".into()], true, false);
            }
            let (x, n) = if r.chance(60) { bad_type(ctx, r, t.native) } else { metadata_only(ctx, r, t.native) };
            let mut ps = vec![i; 1 + r.below(5)];
            let at = r.below(ps.len());
            ps[at] = x;
            let sig = ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).params(ps).build());
            ctx.op_mut(f).attributes.insert(s("type"), Attribute::Type(sig));
            out("signature", format!("{n} at position {at}"), vec![n], true, false)
        }
        11 => {
            let name = if r.chance(50) { "call_indirect" } else { "return_call_indirect" };
            let attr = if t.native { "sig" } else { "func.indirect_call_signature" };
            let i = ty(ctx, "core", "i32");
            let (x, n) = if r.chance(60) { bad_type(ctx, r, t.native) } else { metadata_only(ctx, r, t.native) };
            let mut ps = vec![i; 1 + r.below(5)];
            let at = r.below(ps.len());
            ps[at] = x;
            let bare = r.chance(20);
            let sig = if bare { i } else { ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).params(ps).build()) };
            let n = if bare { "core.i32".to_string() } else { n };
            let mut b = OperationDataBuilder::new(loc, s(t.dialect), s(name)).attr(attr, Attribute::Type(sig));
            if name == "call_indirect" {
                b = b.result(i);
            }
            if !t.native {
                b = b.attr("table", Attribute::Int(0)).attr("type_idx", Attribute::Int(0));
            }
            let b = b.build(ctx);
            let op = ctx.create_op(b);
            insert(ctx, r, m, op, None);
            // the WebAssembly validator may object to the operation before it comes to the type
            let names = if t.native || name == "call_indirect" { vec![n.clone()] } else { vec![] };
            out("indirect signature", n, names, true, false)
        }
        12 | 13 => {
            // the private carrier's name
            let c = s(CARRIER);
            let k = r.below(7);
            match k {
                0 => {
                    ctx.op_mut(any).attributes.insert(c, Attribute::Bool(true));
                }
                1 => {
                    let a = in_attribute(r, Attribute::Symbol(c));
                    ctx.op_mut(any).attributes.insert(s(key), a);
                }
                2 | 3 => {
                    let b = TypeDataBuilder::new(s("adt"), s("struct"));
                    let b = if k == 2 { b.attr(c, Attribute::Int(0)) } else { b.attr("name", Attribute::Symbol(c)) };
                    let x = ctx.types.intern(b.build());
                    let w = wrap(ctx, r, x, false);
                    let a = in_attribute(r, Attribute::Type(w));
                    ctx.op_mut(any).attributes.insert(s(key), a);
                }
                4 | 5 => {
                    let i = ty(ctx, "core", "i32");
                    let mut arg = BlockArgData { ty: i, attrs: Default::default() };
                    if k == 4 {
                        arg.attrs.insert(c, Attribute::Unit);
                    } else {
                        let a = in_attribute(r, Attribute::Symbol(c));
                        arg.attrs.insert(s(key), a);
                    }
                    let bs = all_blocks(ctx, m.op());
                    let b = *r.pick(&bs);
                    ctx.add_block_arg(b, arg);
                }
                _ => {
                    let i = ty(ctx, "core", "i32");
                    ctx.register_type_alias(c, i);
                }
            }
            out("control carrier", format!("place {k}"), vec![CARRIER.into()], true, false)
        }
        14 => {
            let (x, n) = bad_type(ctx, r, t.native);
            let w = wrap(ctx, r, x, false);
            ctx.register_type_alias(s("Residue"), w);
            out("type alias", n.clone(), vec![n], true, false)
        }
        15 => {
            let conv = s("tribute.calling_convention");
            if r.chance(40) {
                let a = match r.below(4) {
                    0 => Attribute::Int(3 + r.below(9) as i128),
                    1 => Attribute::Int(-1 - r.below(9) as i128),
                    2 => Attribute::String("Cps".into()),
                    _ => Attribute::Bool(true),
                };
                let what = format!("{a:?}");
                ctx.op_mut(any).attributes.insert(conv, a);
                return out("convention", what, vec![], true, false);
            }
            let fs: Vec<OpRef> = inner.iter().copied().filter(|o| ctx.op(*o).dialect == s(t.dialect) && ctx.op(*o).name == s("func")).collect();
            if fs.is_empty() {
                return None;
            }
            let f = *r.pick(&fs);
            let i = ty(ctx, "core", "i32");
            let nil = ty(ctx, "core", "nil");
            let empty = r.chance(40);
            let n = r.below(4);
            let res = *r.pick(&["i1", "i32", "i64", "f64", "ptr"]);
            let res = ty(ctx, "core", res);
            let sig = ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).param(if empty { nil } else { res }).params(vec![i; n]).build());
            ctx.op_mut(f).attributes.insert(s("type"), Attribute::Type(sig));
            ctx.op_mut(f).attributes.insert(conv, Attribute::Int(2));
            out(if empty { "own convention" } else { "convention" }, format!("Cps function, result empty: {empty}"), vec![], !empty, false)
        }
        _ => {
            let i = ty(ctx, "core", "i32");
            let sig = ctx.types.intern(TypeDataBuilder::new(s("core"), s("func")).params([i]).build());
            let name = if r.chance(50) || !t.native { "return_call" } else { "return_call_indirect" };
            let empty = r.chance(30);
            let mut b = OperationDataBuilder::new(loc, s(t.dialect), s(name)).attr("callee", Attribute::Symbol(s("f")));
            if name == "return_call_indirect" {
                b = b.attr("sig", Attribute::Type(sig));
            }
            if !empty {
                b = b.result(i);
            }
            let b = b.build(ctx);
            let op = ctx.create_op(b);
            insert(ctx, r, m, op, None);
            out(if empty { "own transfer" } else { "transfer" }, format!("{name} with a result: {}", !empty), vec![], !empty, false)
        }
    }
}

fn case(c: &mut Case, t: &Target) {
    let mut f = if t.native { Features::native() } else { crate::c_wasm::features(&mut c.rng) };
    if t.native {
        f.bytes = c.rng.chance(30);
        f.indirect = !f.bytes;
    }
    // The lowered form of programs with references still mentions the source's reference types in
    // aliases and layouts, which the full boundary (not yet part of the command line's pipeline)
    // does not allow; for those only the backends' own check is judged.
    let scalar = c.rng.chance(70);
    if scalar {
        f.adt = false;
        f.boxing = false;
        f.bytes = false;
        f.indirect = false;
    }
    let text = Gen::new(&mut c.rng, f).module();
    c.input(text.clone());
    let (mut ctx, m) = {
        let mut ctx = IrContext::new();
        let op = parse_module(&mut ctx, &text).unwrap_or_else(|e| panic!("harness: {e:?}"));
        crate::c_native::attach_known(&mut ctx, op);
        let m = Module::new(&ctx, op).unwrap();
        (ctx, m)
    };
    if !pipeline::raw_function_values(&ctx, m.op()) && pipeline::shared(&mut ctx, m).is_err() {
        c.skip("not lowered");
        return;
    }
    let ro = if t.native {
        let o = NativeOpts::from_bits(c.rng.below(8) as u32);
        match pipeline::native_target(&mut ctx, m).and_then(|_| pipeline::native_prepare(&mut ctx, m, o)) {
            Ok(ro) => ro,
            Err(_) => {
                c.skip("not lowered");
                return;
            }
        }
    } else {
        if pipeline::wasm_prepare(&mut ctx, m).is_err() {
            c.skip("not lowered");
            return;
        }
        vec![]
    };
    match verify_tribute_backend_ready(&ctx, m, t.ready) {
        Err(e) if scalar => return c.violation(format!("a module lowered by the compiler itself is rejected: {e}")),
        Err(_) => c.st.count("lowered modules with source types left in aliases or layouts", 1),
        Ok(()) => c.st.count("lowered modules accepted", 1),
    }
    let lowered = print_module(&ctx, m.op());
    c.distinct(&lowered);
    if std::env::var_os("VH_DUMP").is_some() { eprintln!("{lowered}"); }
    for k in 0..24 {
        let (mut ctx, m) = load(&lowered);
        let whole = verify_tribute_backend_ready(&ctx, m, t.ready).is_ok();
        if k == 0 && scalar && let Err(e) = verify_tribute_backend_ready(&ctx, m, t.ready) {
            return c.violation(format!("a module lowered by the compiler itself, printed and read back, is rejected: {e}"));
        }
        let Some(x) = inject(&mut ctx, &mut c.rng, m, t) else { continue };
        c.st.count(&format!("injected: {}", x.kind), 1);
        let before = print_module(&ctx, m.op());
        let got = verify_tribute_backend_ready(&ctx, m, t.ready);
        if print_module(&ctx, m.op()) != before {
            return c.violation("the check changed the module".to_string());
        }
        match (&got, x.illegal) {
            _ if !whole && got.is_err() => {}
            (Ok(()), true) => return c.violation(format!("accepted a module with a residue: {} ({})", x.kind, x.what)),
            (Err(e), false) => return c.violation(format!("rejected a module without residue ({}, {}): {e}", x.kind, x.what)),
            (Err(e), true) => {
                let e = e.to_string();
                if let Some(n) = x.names.iter().find(|n| !e.contains(n.as_str())) {
                    return c.violation(format!("the error for {} ({}) does not name {n}: {e}", x.kind, x.what));
                }
                c.st.count("residues reported", 1);
            }
            (Ok(()), false) => c.st.count("harmless changes accepted", 1),
        }
        if x.operation {
            // and the backend itself refuses
            let e = if t.native { emit_module_to_native(&ctx, m, &ro).map(|_| ()).map_err(|e| e.to_string()) } else { emit_module_to_wasm(&mut ctx, m).map(|_| ()).map_err(|e| e.to_string()) };
            match e {
                Ok(()) => return c.violation(format!("code was produced from a module with {}", x.what)),
                Err(e) if !x.names.iter().all(|n| e.contains(n.as_str())) => return c.violation(format!("the backend's error for {} does not name it: {e}", x.what)),
                Err(_) => c.st.count("emissions refused", 1),
            }
        }
    }
    c.sample(|| lowered);
}

pub fn check_ready(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "native", cfg.n(250, 8_000), |c| case(c, &Target { native: true, dialect: "clif", ready: TributeBackend::Native }));
    st.merge(run_cases(cfg, "wasm", cfg.n(250, 8_000), |c| case(c, &Target { native: false, dialect: "wasm", ready: TributeBackend::Wasm })));
    st.rules = vec![
        "a random program is lowered by the real stages; the boundary check must accept the result, then 24 copies each get one change at a random place (an operation of another dialect, a type the target has no values of as a result, argument, parameter or callable signature, a foreign type nested in attributes or aliases, the private control carrier's name, a broken calling convention or transfer, or a harmless counterpart); the check must reject exactly the harmful ones, name the offender, leave the module alone, and the backend must refuse to emit where an operation was left over. Distinct = different lowered modules.".into(),
    ];
    st
}
