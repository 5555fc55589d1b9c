//! Data layout (C13): the computed layout of every struct and enum type obeys the documented
//! rules, and objects built by compiled code keep all their fields apart.
use crate::drv::{run_cases, Cfg, Stats};
use crate::rng::Rng;
use std::fmt::Write as _;
use trunk_ir::adt_layout::{compute_enum_layout, compute_struct_layout, find_variant_layout, type_size_align};
use trunk_ir::parser::parse_module;
use trunk_ir::rewrite::TypeConverter;
use trunk_ir::{IrContext, Module, Symbol, TypeRef};

/// Size (and alignment) of a field by the documented table; `None`: any other type.
fn table(t: &str) -> u32 {
    match t {
        "core.i8" => 1,
        "core.i16" => 2,
        "core.i32" | "core.i1" | "core.f32" => 4,
        _ => 8,
    }
}

const FIELD: &[&str] = &[
    "core.i1", "core.i8", "core.i16", "core.i32", "core.i64", "core.f32", "core.f64", "core.ptr", "core.bytes", "tribute_rt.anyref",
    "core.nil", "x.y", "core.i8", "core.i16", "core.i32", "core.array(core.i32)", "!inner", "core.i24", "x.i8",
];

/// Names of variants that are easily taken for one another.
const VNAME: &[&str] = &["V", "v", "Vv", "V0", "v0", "V_0", "V00"];

/// A converter the layout consults first: maps some source types to native ones.
const MAPPED: &[(&str, &str)] = &[("src.byte", "core.i8"), ("src.short", "core.i16"), ("src.int", "core.i32"), ("src.ref", "core.ptr"), ("core.nil", "core.i32"), ("x.y", "core.i16")];

fn fields(r: &mut Rng, mapped: bool) -> Vec<String> {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => 1 + r.below(5),
        7..=8 => 4 + r.below(12),
        _ => 20 + r.below(180),
    };
    (0..n)
        .map(|_| {
            if mapped && r.chance(40) { r.pick(MAPPED).0.to_string() } else { r.pick(FIELD).to_string() }
        })
        .collect()
}

fn native(t: &str, mapped: bool) -> &str {
    if mapped {
        if let Some(m) = MAPPED.iter().find(|m| m.0 == t) {
            return m.1;
        }
    }
    t
}

/// Offsets, end of the last field and largest alignment for fields laid out in order.
fn model(f: &[String], mapped: bool) -> (Vec<u32>, u32, u32) {
    let (mut at, mut align, mut offs) = (0u32, 1, vec![]);
    for t in f {
        let s = table(native(t, mapped));
        at = at.div_ceil(s) * s;
        offs.push(at);
        at += s;
        align = align.max(s);
    }
    (offs, at, align)
}

fn ty_of(ctx: &IrContext, m: Module, name: &str) -> TypeRef {
    for op in m.ops(ctx) {
        let d = ctx.op(op);
        if d.attributes.get_symbol("sym_name") == Some(Symbol::from_dynamic(name)) {
            return d.attributes.get_type("ty").unwrap();
        }
    }
    panic!("harness: no holder {name}")
}

fn converter(ctx: &IrContext, m: Module, mapped: bool) -> TypeConverter {
    let mut tc = TypeConverter::new();
    if mapped {
        let pairs: Vec<(TypeRef, TypeRef)> =
            MAPPED.iter().enumerate().map(|(i, _)| (ty_of(ctx, m, &format!("a{i}")), ty_of(ctx, m, &format!("b{i}")))).collect();
        tc.add_conversion(move |_, t| pairs.iter().find(|p| p.0 == t).map(|p| p.1));
    }
    tc
}

pub fn check_layout(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "computed", cfg.n(6_000, 300_000), |c| {
        let mapped = c.rng.chance(40);
        let s = fields(&mut c.rng, mapped);
        let nv = if c.rng.chance(10) { 0 } else { 1 + c.rng.below(6) };
        let mut vs: Vec<Vec<String>> = (0..nv).map(|_| fields(&mut c.rng, mapped)).collect();
        if c.rng.chance(20) {
            vs.iter_mut().for_each(|v| v.truncate(1));
        }
        let mut t = String::from("core.module @m {\n!inner = adt.struct() {fields = [[@p, core.i8], [@q, core.f64]], name = @Inner}\n");
        let fl: Vec<String> = s.iter().enumerate().map(|(i, f)| format!("[@f{i}, {f}]")).collect();
        let _ = writeln!(t, "!s = adt.struct() {{fields = [{}], name = @S}}", fl.join(", "));
        let vl: Vec<String> = vs.iter().enumerate().map(|(i, f)| format!("[@{}, [{}]]", VNAME[i], f.join(", "))).collect();
        let _ = writeln!(t, "!e = adt.enum() {{name = @E, variants = [{}]}}", vl.join(", "));
        let mut hold = |n: &str, ty: &str| writeln!(t, "test.hold {{sym_name = @{n}, ty = {ty}}}").unwrap();
        hold("s", "!s");
        hold("e", "!e");
        for (i, (a, b)) in MAPPED.iter().enumerate() {
            hold(&format!("a{i}"), a);
            hold(&format!("b{i}"), b);
        }
        for (i, f) in FIELD.iter().enumerate() {
            hold(&format!("f{i}"), f);
        }
        t.push_str("}\n");
        c.input(t.clone());
        let mut ctx = IrContext::new();
        let op = parse_module(&mut ctx, &t).unwrap_or_else(|e| panic!("harness: {e:?}"));
        let m = Module::new(&ctx, op).unwrap();
        let tc = converter(&ctx, m, mapped);
        for (i, f) in FIELD.iter().enumerate() {
            let ty = ty_of(&ctx, m, &format!("f{i}"));
            if type_size_align(&ctx, ty) != (table(f), table(f)) {
                c.violation(format!("{f} is given size and alignment {:?}", type_size_align(&ctx, ty)));
                return;
            }
        }
        let (sty, ety) = (ty_of(&ctx, m, "s"), ty_of(&ctx, m, "e"));
        let (Some(sl), Some(el)) = (compute_struct_layout(&ctx, sty, &tc), compute_enum_layout(&ctx, ety, &tc)) else {
            c.violation("a struct or enum type is given no layout");
            return;
        };
        if compute_struct_layout(&ctx, ety, &tc).is_some() || compute_enum_layout(&ctx, sty, &tc).is_some() {
            c.violation("a struct is laid out as an enum or an enum as a struct");
            return;
        }
        c.st.count("struct fields placed", s.len() as u64);
        c.st.count("enum variants placed", vs.len() as u64);
        let (offs, end, align) = model(&s, mapped);
        if sl.field_offsets != offs || sl.alignment != align || sl.total_size != end.div_ceil(align) * align {
            c.violation(format!("struct layout: expected offsets {offs:?} size {} alignment {align}, computed {sl:?}", end.div_ceil(align) * align));
            return;
        }
        // every field aligned, inside the object, clear of the others
        let mut used = vec![];
        for (o, f) in sl.field_offsets.iter().zip(&s) {
            used.push((*o, *o + table(native(f, mapped))));
        }
        if !disjoint(&used, sl.total_size) {
            c.violation(format!("struct fields overlap or leave the object: {sl:?}"));
            return;
        }
        if el.variant_layouts.len() != vs.len() || el.tag_offset != 0 || el.tag_size != 4 || el.fields_offset != 8 {
            c.violation(format!("enum header: {el:?}"));
            return;
        }
        let mut need = 0;
        for (i, v) in vs.iter().enumerate() {
            let l = &el.variant_layouts[i];
            let (offs, end, _) = model(v, mapped);
            need = need.max(end);
            let mut used = vec![(el.tag_offset, el.tag_offset + el.tag_size)];
            for (o, f) in l.field_offsets.iter().zip(v) {
                used.push((el.fields_offset + o, el.fields_offset + o + table(native(f, mapped))));
            }
            if l.field_offsets != offs || l.tag_value != i as u32 || l.name != Symbol::from_dynamic(VNAME[i]) || l.fields_size < end || !disjoint(&used, el.total_size) {
                c.violation(format!("variant {i}: expected offsets {offs:?} and room for {end} bytes, computed {l:?} in {el:?}"));
                return;
            }
            if find_variant_layout(&el, l.name).is_none_or(|x| x.tag_value != i as u32) {
                c.violation(format!("variant {i} is not found by its name"));
                return;
            }
        }
        if el.total_size != 8 + need.div_ceil(8) * 8 || el.alignment != 8 || find_variant_layout(&el, Symbol::new("Absent")).is_some() {
            c.violation(format!("enum size: variants need {need} bytes, computed {el:?}"));
            return;
        }
        if s.len() > 1 || vs.iter().any(|v| v.len() > 1) {
            c.distinct(&format!("{s:?} {vs:?} {mapped}"));
        }
        c.sample(|| format!("{s:?} -> {sl:?}; {vs:?} -> {el:?}"));
    });
    #[cfg(feature = "full")]
    st.merge(objects(cfg));
    st.rules.push("random field and variant lists, with and without a type conversion applied first: offsets, sizes and alignments must be the ones the documented rules give, and independently of that fields must be aligned, inside the object and disjoint. Programs that fill objects of random types, overwrite fields and read everything back, compiled and run on a guarded heap: every field reads back what was last written and nothing outside the object is touched. Non-trivial = two or more fields somewhere.".into());
    st
}

fn disjoint(used: &[(u32, u32)], total: u32) -> bool {
    let mut u = used.to_vec();
    u.sort_unstable();
    u.windows(2).all(|w| w[0].1 <= w[1].0) && u.iter().all(|x| x.1 <= total && x.0.is_multiple_of(x.1 - x.0))
}

#[cfg(feature = "full")]
const NAT: &[&str] = &["i1", "i8", "i16", "i32", "i64", "f32", "f64"];

#[cfg(feature = "full")]
fn objects(cfg: &Cfg) -> Stats {
    use crate::c_native::{build, reference};
    use crate::pipeline::{self, NativeOpts};
    run_cases(cfg, "objects", cfg.n(250, 12_000), |c| {
        let text = object_program(&mut c.rng);
        let inputs: Vec<Vec<u64>> = (0..2)
            .map(|i| (0..16).map(|_| if i == 0 && c.rng.chance(50) { *c.rng.pick(&[0, u64::MAX, 0x8080_8080_8080_8080, 0x7f]) } else { c.rng.u64() }).collect())
            .collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        let Some(want) = reference(c, &text, &inputs) else { return };
        let tag = format!("l{}", c.worker);
        let o = NativeOpts::from_bits(c.rng.below(8) as u32);
        pipeline::set_inline(c.rng.chance(50));
        let Some(b) = build(c, &text, o, &tag) else { return };
        for (i, w) in want.iter().enumerate() {
            let r = crate::nat::run(c.work(), &tag, &b.exe, &inputs[i], true);
            if !r.mem.is_empty() {
                c.violation(format!("input {i}: {}", r.mem.join("; ")));
                return;
            }
            if !crate::c_native::compare(c, &format!("input {i}"), w, &r) {
                return;
            }
            c.st.count("fields read back", w.obs.events.len() as u64);
        }
        c.distinct(&text);
    })
}

/// Straight-line program over a few objects of random types.
#[cfg(feature = "full")]
fn object_program(r: &mut Rng) -> String {
    let mut t = String::from("core.module @m {\n");
    let mut n = 0;
    let mut body = String::new();
    let mut v = |body: &mut String, rhs: String| {
        n += 1;
        let _ = writeln!(body, "    %v{n} = {rhs}");
        format!("%v{n}")
    };
    // structs: (alias, field types), enums: (alias, variants)
    let ns = 1 + r.below(3);
    let structs: Vec<Vec<&str>> = (0..ns).map(|_| (0..1 + r.below(9)).map(|_| *r.pick(NAT)).collect()).collect();
    let ne = 1 + r.below(3);
    let enums: Vec<Vec<Vec<&str>>> =
        (0..ne).map(|_| (0..1 + r.below(4)).map(|_| (0..r.below(7)).map(|_| *r.pick(NAT)).collect()).collect()).collect();
    for (i, s) in structs.iter().enumerate() {
        let f: Vec<String> = s.iter().enumerate().map(|(k, x)| format!("[@f{k}, core.{x}]")).collect();
        let _ = writeln!(t, "!S{i} = adt.struct() {{fields = [{}], name = @S{i}}}", f.join(", "));
    }
    for (i, e) in enums.iter().enumerate() {
        let f: Vec<String> = e
            .iter()
            .enumerate()
            .map(|(k, x)| format!("[@V{k}, [{}]]", x.iter().map(|y| format!("core.{y}")).collect::<Vec<_>>().join(", ")))
            .collect();
        let _ = writeln!(t, "!E{i} = adt.enum() {{name = @E{i}, variants = [{}]}}", f.join(", "));
    }
    for x in NAT {
        let _ = writeln!(t, "func.func @v_in_{x}(%k: core.i32) -> core.{x} attributes {{abi = \"C\"}} {{ func.unreachable }}");
        let _ = writeln!(t, "func.func @v_rec_{x}(%k: core.{x}) -> core.nil attributes {{abi = \"C\"}} {{ func.unreachable }}");
    }
    let mut value = |body: &mut String, v: &mut dyn FnMut(&mut String, String) -> String, r: &mut Rng, x: &str| {
        let k = v(body, format!("arith.const {{value = {}}} : core.i32", r.below(16)));
        v(body, format!("func.call {k} {{callee = @v_in_{x}}} : core.{x}"))
    };
    let mut objs = vec![];
    for _ in 0..2 + r.below(5) {
        if r.chance(50) {
            let i = r.below(ns);
            let a: Vec<String> = structs[i].iter().map(|x| value(&mut body, &mut v, r, x)).collect();
            let o = v(&mut body, format!("adt.struct_new {} {{type = !S{i}}} : !S{i}", a.join(", ")));
            objs.push((true, i, 0, o));
        } else {
            let i = r.below(ne);
            let k = r.below(enums[i].len());
            let a: Vec<String> = enums[i][k].iter().map(|x| value(&mut body, &mut v, r, x)).collect();
            let o = v(&mut body, format!("adt.variant_new {} {{tag = @V{k}, type = !E{i}}} : !E{i}", a.join(", ")));
            objs.push((false, i, k, o));
        }
        // overwrite some field of some struct
        let ss: Vec<_> = objs.iter().filter(|o| o.0).cloned().collect();
        if !ss.is_empty() && r.chance(60) {
            let o = r.pick(&ss).clone();
            let f = r.below(structs[o.1].len());
            let x = value(&mut body, &mut v, r, structs[o.1][f]);
            let _ = writeln!(body, "    adt.struct_set {}, {x} {{field = {f}, type = !S{}}}", o.3, o.1);
        }
    }
    for (s, i, k, o) in &objs {
        let mut rec = |body: &mut String, x: &str, val: String| {
            v(body, format!("func.call {val} {{callee = @v_rec_{x}}} : core.nil"));
        };
        if *s {
            for (f, x) in structs[*i].iter().enumerate() {
                let _ = writeln!(body, "    {o}f{f} = adt.struct_get {o} {{field = {f}, type = !S{i}}} : core.{x}");
                rec(&mut body, x, format!("{o}f{f}"));
            }
        } else {
            for (j, _) in enums[*i].iter().enumerate() {
                let _ = writeln!(body, "    {o}i{j} = adt.variant_is {o} {{tag = @V{j}, type = !E{i}}} : core.i1");
                rec(&mut body, "i1", format!("{o}i{j}"));
            }
            let _ = writeln!(body, "    {o}c = adt.variant_cast {o} {{tag = @V{k}, type = !E{i}}} : !E{i}");
            for (f, x) in enums[*i][*k].iter().enumerate() {
                let _ = writeln!(body, "    {o}f{f} = adt.variant_get {o}c {{field = {f}, tag = @V{k}, type = !E{i}}} : core.{x}");
                rec(&mut body, x, format!("{o}f{f}"));
            }
        }
    }
    let _ = write!(t, "func.func @main() -> core.nil {{\n{body}    %end = arith.const {{value = unit}} : core.nil\n    func.return %end\n}}\n}}\n");
    t
}
