//! Random whole-program generator. Emits TrunkIR text that the real parser reads.
//! Programs terminate by construction, and `@main` reports through host functions
//! (`v_in_*`, `v_rec_*`, `v_eff_*`) that every executor implements.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    I1,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Bytes,
    /// boxed value: 0 = i32, 1 = f64, 2 = i1, 3 = bytes
    Box(u8),
    S(usize),
    E(usize),
    /// function value with signature index
    Fn(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Externs {
    Abi,
    WasmImport,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loops {
    No,
    Single,
    Multi,
}

#[derive(Clone, Debug)]
pub struct Features {
    pub scalars: Vec<Ty>,
    pub externs: Externs,
    pub loops: Loops,
    pub switch: bool,
    pub adt: bool,
    pub boxing: bool,
    pub struct_set: bool,
    pub indirect: bool,
    pub tail_calls: bool,
    pub recursion: bool,
    pub unsigned_cmp: bool,
    pub conv: bool,
    pub float_conv: bool,
    pub traps: bool,
    pub const_heavy: bool,
    pub funcs: usize,
    pub stmts: usize,
    pub depth: u32,
    /// nested `core.module`s / dead functions etc. for symbol-level passes
    pub dead_funcs: bool,
    pub nil_results: bool,
    /// more control flow, less arithmetic
    pub cf_bias: bool,
    /// only loops whose exits sit in `scf.switch` cases (accepted by the op verifiers)
    pub strict_loops: bool,
    /// mostly reference-typed values
    pub heap_bias: bool,
    /// no control flow
    pub straight: bool,
    /// some functions live in nested modules
    pub nested: bool,
    /// byte strings, their runtime operations, and the prelude's String
    pub bytes: bool,
    pub strings: bool,
    /// slicing (native only), writing standard output, reading standard input (native only)
    pub slices: bool,
    pub write: bool,
    pub read: bool,
}

impl Features {
    pub fn opt() -> Self {
        Features {
            scalars: vec![Ty::I1, Ty::I8, Ty::I16, Ty::I32, Ty::I32, Ty::I64, Ty::F32, Ty::F64],
            externs: Externs::Abi,
            loops: Loops::Multi,
            switch: true,
            adt: true,
            boxing: true,
            struct_set: true,
            indirect: true,
            tail_calls: true,
            recursion: true,
            unsigned_cmp: true,
            conv: true,
            float_conv: true,
            traps: false,
            const_heavy: true,
            funcs: 6,
            stmts: 7,
            depth: 3,
            dead_funcs: true,
            nil_results: true,
            cf_bias: false,
            strict_loops: false,
            heap_bias: false,
            straight: false,
            nested: false,
            bytes: false,
            strings: false,
            slices: true,
            write: false,
            read: false,
        }
    }
    pub fn native() -> Self {
        Features { const_heavy: false, tail_calls: false, ..Self::opt() }
    }
    pub fn wasm() -> Self {
        Features {
            scalars: vec![Ty::I1, Ty::I32, Ty::I32, Ty::I64, Ty::F32, Ty::F64],
            externs: Externs::WasmImport,
            loops: Loops::No,
            switch: false,
            indirect: false,
            unsigned_cmp: false,
            const_heavy: false,
            slices: false,
            ..Self::opt()
        }
    }
}

#[derive(Clone)]
struct Sig {
    params: Vec<Ty>,
    ret: Option<Ty>,
}

struct StructDecl {
    name: String,
    fields: Vec<Ty>,
}
struct EnumDecl {
    name: String,
    variants: Vec<(String, Vec<Ty>)>,
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    nest: usize,
    consts: Vec<Vec<u8>>,
    pub f: Features,
    out: String,
    next: usize,
    structs: Vec<StructDecl>,
    enums: Vec<EnumDecl>,
    sigs: Vec<Sig>,
    funcs: Vec<(String, Sig)>,
    in_main: bool,
    n_inputs: usize,
    budget: i64,
    nlines: usize,
    cap: usize,
}

type Scope = Vec<(String, Ty)>;

pub fn scalar_name(t: Ty) -> &'static str {
    match t {
        Ty::I1 => "i1",
        Ty::I8 => "i8",
        Ty::I16 => "i16",
        Ty::I32 => "i32",
        Ty::I64 => "i64",
        Ty::F32 => "f32",
        Ty::F64 => "f64",
        _ => unreachable!(),
    }
}

fn width(t: Ty) -> u32 {
    match t {
        Ty::I1 => 1,
        Ty::I8 => 8,
        Ty::I16 => 16,
        Ty::I32 => 32,
        Ty::I64 => 64,
        _ => 0,
    }
}

fn is_int(t: Ty) -> bool {
    width(t) > 1
}
fn is_float(t: Ty) -> bool {
    matches!(t, Ty::F32 | Ty::F64)
}
fn is_scalar(t: Ty) -> bool {
    width(t) > 0 || is_float(t)
}

impl Features {
    /// experiment switches for debugging the harness itself: VH_OFF=adt,loops,...
    fn tweak(mut self) -> Self {
        let Ok(off) = std::env::var("VH_OFF") else { return self };
        for k in off.split(',') {
            match k {
                "adt" => self.adt = false,
                "boxing" => self.boxing = false,
                "loops" => self.loops = Loops::No,
                "switch" => self.switch = false,
                "struct_set" => self.struct_set = false,
                "indirect" => self.indirect = false,
                "recursion" => self.recursion = false,
                "conv" => self.conv = false,
                "small" => {
                    self.funcs = 2;
                    self.stmts = 2;
                    self.depth = 1;
                }
                "narrow" => self.scalars = vec![Ty::I1, Ty::I32, Ty::F64],
                _ => {}
            }
        }
        self
    }
}

impl<'r> Gen<'r> {
    pub fn new(rng: &'r mut Rng, f: Features) -> Self {
        let f = f.tweak();
        Gen {
            rng,
            f,
            out: String::new(),
            next: 0,
            structs: vec![],
            enums: vec![],
            sigs: vec![],
            funcs: vec![],
            in_main: false,
            n_inputs: 16,
            budget: 0,
            nlines: 0,
            cap: 0,
            nest: 0,
            consts: vec![],
        }
    }

    fn fresh(&mut self) -> String {
        self.next += 1;
        format!("%v{}", self.next)
    }

    fn ty_text(&self, t: Ty) -> String {
        match t {
            Ty::Box(_) | Ty::S(_) | Ty::E(_) => "tribute_rt.anyref".into(),
            Ty::Bytes => "core.bytes".into(),
            Ty::Fn(s) => {
                let sig = &self.sigs[s];
                self.fn_ty(sig)
            }
            t => format!("core.{}", scalar_name(t)),
        }
    }
    fn ret_text(&self, r: Option<Ty>) -> String {
        r.map(|t| self.ty_text(t)).unwrap_or("core.nil".into())
    }
    fn fn_ty(&self, sig: &Sig) -> String {
        let mut s = format!("core.func({}", self.ret_text(sig.ret));
        for p in &sig.params {
            let _ = write!(s, ", {}", self.ty_text(*p));
        }
        s.push(')');
        s
    }

    fn line(&mut self, ind: usize, s: &str) {
        self.nlines += 1;
        for _ in 0..ind {
            self.out.push_str("  ");
        }
        self.out.push_str(s);
        self.out.push('\n');
    }

    fn pick_scalar(&mut self) -> Ty {
        let v = self.f.scalars.clone();
        *self.rng.pick(&v)
    }

    fn pick_box(&mut self) -> Ty {
        let n = if self.f.bytes { 4 } else { 3 };
        Ty::Box(self.rng.below(n) as u8)
    }

    fn pick_ty(&mut self) -> Ty {
        let mut r = self.rng.below(100);
        if self.f.heap_bias && self.rng.chance(50) {
            r = self.rng.below(37);
            if !self.f.adt {
                r = 36;
            }
        }
        if self.f.adt && r < 14 && !self.structs.is_empty() {
            return Ty::S(self.rng.below(self.structs.len()));
        }
        if self.f.adt && r < 30 && !self.enums.is_empty() {
            return Ty::E(self.rng.below(self.enums.len()));
        }
        if self.f.bytes && self.rng.chance(12) {
            return Ty::Bytes;
        }
        if self.f.boxing && r < 37 {
            return self.pick_box();
        }
        if self.f.indirect && r < 41 && !self.sigs.is_empty() {
            let s = self.rng.below(self.sigs.len());
            if self.funcs.iter().any(|(_, g)| g.params == self.sigs[s].params && g.ret == self.sigs[s].ret) {
                return Ty::Fn(s);
            }
        }
        self.pick_scalar()
    }

    pub fn const_text(&mut self, t: Ty) -> String {
        match t {
            Ty::I1 => (*self.rng.pick(&["true", "false", "1", "0"])).into(),
            Ty::F32 => {
                // f32 constants carry their bits in the low half of the float attribute;
                // only values whose printed f64 survives are writable, so 0.0 is the safe one.
                "0.0".into()
            }
            Ty::F64 => {
                let c = ["0.0", "-0.0", "1.0", "-1.5", "2.5", "3.25", "1.0e10", "-7.0e-3", "0.1", "123456.789", "1.0e300", "5.0e-324", "-3.0"];
                (*self.rng.pick(&c)).into()
            }
            t => {
                let w = width(t);
                let (min, max) = if w == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
                let v = match self.rng.below(10) {
                    0 => 0,
                    1 => 1,
                    2 => -1,
                    3 => min,
                    4 => max,
                    5 => min + 1,
                    6 => 1i64 << self.rng.below(w as usize - 1),
                    7 => self.rng.u64() as i64 >> (64 - w),
                    _ => self.rng.range(-20, 20),
                };
                format!("{v}")
            }
        }
    }

    fn emit_const(&mut self, ind: usize, t: Ty) -> String {
        let v = self.fresh();
        let c = self.const_text(t);
        let l = format!("{v} = arith.const {{value = {c}}} : core.{}", scalar_name(t));
        self.line(ind, &l);
        v
    }

    fn int_const(&mut self, ind: usize, t: Ty, k: i64) -> String {
        let v = self.fresh();
        let l = format!("{v} = arith.const {{value = {k}}} : core.{}", scalar_name(t));
        self.line(ind, &l);
        v
    }

    /// a value of type `t`, from scope or freshly made
    fn value(&mut self, sc: &mut Scope, ind: usize, t: Ty, d: u32) -> String {
        let have: Vec<String> = sc.iter().filter(|(_, x)| *x == t).map(|(n, _)| n.clone()).collect();
        if !have.is_empty() && self.rng.chance(72) {
            // favour recent
            let n = have.len();
            let i = if self.rng.chance(60) { n - 1 - self.rng.below(n.min(4)) } else { self.rng.below(n) };
            return have[i].clone();
        }
        let v = self.make(sc, ind, t, d);
        sc.push((v.clone(), t));
        v
    }

    /// leaf value construction
    fn make(&mut self, sc: &mut Scope, ind: usize, t: Ty, d: u32) -> String {
        match t {
            t if is_scalar(t) => {
                if self.rng.chance(45) {
                    self.emit_const(ind, t)
                } else {
                    let k = self.rng.below(self.n_inputs) as i64;
                    let kv = self.int_const(ind, Ty::I32, k);
                    let v = self.fresh();
                    let n = scalar_name(t);
                    let l = format!("{v} = func.call {kv} {{callee = @v_in_{n}}} : core.{n}");
                    self.line(ind, &l);
                    v
                }
            }
            Ty::Box(b) => {
                let s = [Ty::I32, Ty::F64, Ty::I1, Ty::Bytes][b as usize];
                let mut x = self.value(sc, ind, s, d);
                if s == Ty::I32 && self.f.externs == Externs::WasmImport {
                    // boxed integers are 31 bits wide there
                    let one = self.int_const(ind, Ty::I32, 1);
                    let y = self.fresh();
                    let l = format!("{y} = arith.shr {x}, {one} : core.i32");
                    self.line(ind, &l);
                    x = y;
                }
                let v = self.fresh();
                let l = format!("{v} = core.unrealized_conversion_cast {x} : tribute_rt.anyref");
                self.line(ind, &l);
                v
            }
            Ty::S(k) => {
                let fs = self.structs[k].fields.clone();
                let args: Vec<String> = fs.iter().map(|f| self.value(sc, ind, *f, d + 1)).collect();
                let v = self.fresh();
                let name = self.structs[k].name.clone();
                let l = format!("{v} = adt.struct_new {} {{type = !{name}}} : !{name}", args.join(", "));
                self.line(ind, &l);
                let w = self.fresh();
                let l = format!("{w} = core.unrealized_conversion_cast {v} : tribute_rt.anyref");
                self.line(ind, &l);
                w
            }
            Ty::Bytes => {
                let v = self.fresh();
                let c = self.bytes_text();
                let l = format!("{v} = adt.bytes_const {{value = b\"{c}\"}} : core.bytes");
                self.line(ind, &l);
                v
            }
            Ty::E(k) if self.enums[k].name == "String" && self.rng.chance(50) => {
                let v = self.fresh();
                let c = *self.rng.pick(&["", "a", "hello", "h\u{e9}llo", "\u{1f600}", "line\\n", "x\\0y", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]);
                let l = format!("{v} = adt.string_const {{value = \"{c}\"}} : tribute_rt.anyref");
                self.line(ind, &l);
                v
            }
            Ty::E(k) => {
                // variant 0 is always non-recursive
                let n = self.enums[k].variants.len();
                let i = if d > 3 { 0 } else { self.rng.below(n) };
                let (vn, fs) = self.enums[k].variants[i].clone();
                let args: Vec<String> = fs.iter().map(|f| self.value(sc, ind, *f, d + 1)).collect();
                let v = self.fresh();
                let name = self.enums[k].name.clone();
                let sep = if args.is_empty() { "" } else { " " };
                let l = format!(
                    "{v} = adt.variant_new{sep}{} {{tag = @{vn}, type = !{name}}} : tribute_rt.anyref",
                    args.join(", ")
                );
                self.line(ind, &l);
                v
            }
            Ty::Fn(s) => {
                let sig = self.sigs[s].clone();
                let c: Vec<String> = self
                    .funcs
                    .iter()
                    .filter(|(_, g)| g.params == sig.params && g.ret == sig.ret)
                    .map(|(n, _)| n.clone())
                    .collect();
                let f = self.rng.pick(&c).clone();
                let v = self.fresh();
                let l = format!("{v} = func.constant {{func_ref = @{f}}} : {}", self.fn_ty(&sig));
                self.line(ind, &l);
                v
            }
            _ => unreachable!(),
        }
    }

    fn bytes_text(&mut self) -> String {
        let pool: [&[u8]; 8] = [b"", b"a", b"\x80", b"\xff\x00\x7f", b"hello", b"hello", b"\xc3\xa9\xf0\x9f\x98\x80", b"\\\"\n"];
        let b: Vec<u8> = if !self.consts.is_empty() && self.rng.chance(30) {
            // related to an earlier constant: a prefix, a suffix, an extension, one byte off
            let mut b = self.rng.pick(&self.consts).clone();
            match self.rng.below(4) {
                0 => b.truncate(self.rng.below(b.len() + 1)),
                1 => drop(b.drain(..self.rng.below(b.len() + 1))),
                2 => b.push(self.rng.u64() as u8),
                _ if !b.is_empty() => {
                    let i = self.rng.below(b.len());
                    b[i] ^= 1 << self.rng.below(8);
                }
                _ => {}
            }
            b
        } else if self.rng.chance(60) {
            self.rng.pick(&pool).to_vec()
        } else {
            let n = self.rng.below(12);
            (0..n).map(|_| self.rng.u64() as u8).collect()
        };
        self.consts.push(b.clone());
        b.iter()
            .map(|c| match c {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b' ' => (*c as char).to_string(),
                c => format!("\\x{c:02x}"),
            })
            .collect()
    }

    /// an index below `bound` (an i32 value > 0), or now and then an unconstrained one
    fn index(&mut self, sc: &mut Scope, ind: usize, bound: &str) -> String {
        let x = self.value(sc, ind, Ty::I32, 0);
        if self.f.traps && self.rng.chance(30) {
            return x;
        }
        let v = self.fresh();
        let l = format!("{v} = arith.remui {x}, {bound} : core.i32");
        self.line(ind, &l);
        v
    }

    fn plus_one(&mut self, ind: usize, v: &str) -> String {
        let one = self.int_const(ind, Ty::I32, 1);
        let r = self.fresh();
        let l = format!("{r} = arith.addi {v}, {one} : core.i32");
        self.line(ind, &l);
        r
    }

    fn bytes_len(&mut self, ind: usize, b: &str) -> String {
        let v = self.fresh();
        let l = format!("{v} = func.call {b} {{callee = @__tribute_bytes_len}} : core.i32");
        self.line(ind, &l);
        v
    }

    fn bytes_stmt(&mut self, sc: &mut Scope, ind: usize) {
        let b = self.value(sc, ind, Ty::Bytes, 0);
        if self.f.read && self.rng.chance(20) {
            let v = self.fresh();
            let l = format!("{v} = func.call {{callee = @read_obs}} : core.bytes");
            self.line(ind, &l);
            sc.push((v, Ty::Bytes));
            return;
        }
        if self.f.write && self.rng.chance(30) {
            let c = self.value(sc, ind, Ty::I1, 0);
            let v = self.fresh();
            let l = format!("{v} = func.call {b}, {c} {{callee = @\"std::io::__tribute_io_write\"}} : core.nil");
            self.line(ind, &l);
            return;
        }
        let mut k = self.rng.below(5);
        if k == 2 && !self.f.slices {
            k = 1;
        }
        match k {
            0 => {
                let v = self.bytes_len(ind, &b);
                sc.push((v, Ty::I32));
            }
            1 => {
                let c = self.value(sc, ind, Ty::Bytes, 0);
                let v = self.fresh();
                let l = format!("{v} = func.call {b}, {c} {{callee = @join}} : core.bytes");
                self.line(ind, &l);
                sc.push((v, Ty::Bytes));
            }
            2 => {
                let n = self.bytes_len(ind, &b);
                let n1 = self.plus_one(ind, &n);
                let e = self.index(sc, ind, &n1);
                let e1 = self.plus_one(ind, &e);
                let s = if self.f.traps { self.index(sc, ind, &n1) } else { self.index(sc, ind, &e1) };
                let v = self.fresh();
                let l = format!("{v} = func.call {b}, {s}, {e} {{callee = @__tribute_bytes_slice_or_panic}} : core.bytes");
                self.line(ind, &l);
                sc.push((v, Ty::Bytes));
            }
            3 => {
                // make it non-empty first
                let c = self.fresh();
                let x = self.rng.u64() as u8;
                let l = format!("{c} = adt.bytes_const {{value = b\"\\x{x:02x}\"}} : core.bytes");
                self.line(ind, &l);
                let d = self.fresh();
                let l = format!("{d} = func.call {b}, {c} {{callee = @__tribute_bytes_concat}} : core.bytes");
                self.line(ind, &l);
                let n = self.bytes_len(ind, &d);
                let i = self.index(sc, ind, &n);
                let v = self.fresh();
                let l = format!("{v} = func.call {d}, {i} {{callee = @__bytes_get_or_panic}} : core.i32");
                self.line(ind, &l);
                sc.push((v, Ty::I32));
            }
            _ => {
                let c = self.value(sc, ind, Ty::Bytes, 0);
                let small = |g: &mut Self, sc: &mut Scope, m: i64| {
                    let x = g.value(sc, ind, Ty::I32, 0);
                    if g.rng.chance(10) {
                        return x;
                    }
                    let m = g.int_const(ind, Ty::I32, m);
                    let v = g.fresh();
                    let l = format!("{v} = arith.and {x}, {m} : core.i32");
                    g.line(ind, &l);
                    v
                };
                let (i, j, n);
                if self.f.slices && self.rng.chance(50) {
                    i = small(self, sc, 1);
                    j = small(self, sc, 1);
                    n = if self.rng.chance(30) { self.bytes_len(ind, &b) } else { small(self, sc, 3) };
                } else {
                    // a range inside both
                    let room = |g: &mut Self, sc: &mut Scope, b: &str| {
                        let l = g.bytes_len(ind, b);
                        let l1 = g.plus_one(ind, &l);
                        let x = g.value(sc, ind, Ty::I32, 0);
                        let i = g.fresh();
                        let t = format!("{i} = arith.remui {x}, {l1} : core.i32");
                        g.line(ind, &t);
                        let r = g.fresh();
                        let t = format!("{r} = arith.subi {l1}, {i} : core.i32");
                        g.line(ind, &t);
                        (i, r)
                    };
                    let (i0, p) = room(self, sc, &b);
                    let (j0, q) = room(self, sc, &c);
                    let (k, m) = (self.fresh(), self.fresh());
                    let x = self.value(sc, ind, Ty::I32, 0);
                    let n0 = self.fresh();
                    for l in [
                        format!("{k} = arith.cmpi {p}, {q} {{predicate = @slt}} : core.i1"),
                        format!("{m} = scf.if {k} : core.i32 {{"),
                        format!("  scf.yield {p}"),
                        "} {".into(),
                        format!("  scf.yield {q}"),
                        "}".into(),
                        format!("{n0} = arith.remui {x}, {m} : core.i32"),
                    ] {
                        self.line(ind, &l);
                    }
                    (i, j, n) = (i0, j0, n0);
                }
                let v = self.fresh();
                let l = format!("{v} = func.call {b}, {i}, {c}, {j}, {n} {{callee = @__tribute_bytes_range_equal}} : core.i1");
                self.line(ind, &l);
                sc.push((v, Ty::I1));
            }
        }
    }

    fn bytes_decls(&mut self) {
        let (b, i) = ("core.bytes".to_string(), "core.i32".to_string());
        self.c_extern("__tribute_bytes_len", &[b.clone()], "core.i32", "C");
        self.c_extern("__tribute_bytes_concat", &[b.clone(), b.clone()], "core.bytes", "C");
        self.c_extern("__tribute_bytes_range_equal", &[b.clone(), i.clone(), b.clone(), i.clone(), i.clone()], "core.i1", "C");
        if self.f.slices {
            self.c_extern("__tribute_bytes_slice_or_panic", &[b.clone(), i.clone(), i.clone()], "core.bytes", "C");
        }
        if self.f.write {
            self.c_extern("\"std::io::__tribute_io_write\"", &[b.clone(), "core.i1".into()], "core.nil", "intrinsic");
        }
        if self.f.read {
            self.c_extern("\"std::io::__tribute_io_read_line\"", &[], "tribute_rt.anyref", "intrinsic");
            for l in [
                "func.func @read_obs() -> core.bytes {",
                "  %r = func.call {callee = @\"std::io::__tribute_io_read_line\"} : tribute_rt.anyref",
                "  %a = adt.variant_is %r {tag = @ReadLine, type = !R} : core.i1",
                "  %x = scf.if %a : core.bytes {",
                "    %c = adt.variant_cast %r {tag = @ReadLine, type = !R} : !R",
                "    %b = adt.variant_get %c {field = 0, tag = @ReadLine, type = !R} : core.bytes",
                "    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32",
                "    %w = func.call %n {callee = @v_rec_i32} : core.nil",
                "    %k = arith.const {value = 40} : core.i32",
                "    %l = arith.cmpi %n, %k {predicate = @sgt} : core.i1",
                "    %q = scf.if %l : core.bytes {",
                "      %h = arith.const {value = 20} : core.i32",
                "      %m = arith.subi %n, %h : core.i32",
                "      %s = func.call %b, %m, %n {callee = @__tribute_bytes_slice_or_panic} : core.bytes",
                "      scf.yield %s",
                "    } {",
                "      scf.yield %b",
                "    }",
                "    scf.yield %q",
                "  } {",
                "    %d = adt.variant_is %r {tag = @ReadEndOfFile, type = !R} : core.i1",
                "    %y = scf.if %d : core.bytes {",
                "      %b = adt.bytes_const {value = b\"eof\"} : core.bytes",
                "      scf.yield %b",
                "    } {",
                "      %e = adt.variant_is %r {tag = @ReadSystem, type = !R} : core.i1",
                "      %z = scf.if %e : core.bytes {",
                "        %c = adt.variant_cast %r {tag = @ReadSystem, type = !R} : !R",
                "        %b = adt.variant_get %c {field = 1, tag = @ReadSystem, type = !R} : core.bytes",
                "        %n = adt.variant_get %c {field = 0, tag = @ReadSystem, type = !R} : core.i32",
                "        %w = func.call %n {callee = @v_rec_i32} : core.nil",
                "        scf.yield %b",
                "      } {",
                "        %b = adt.bytes_const {value = b\"invalid\"} : core.bytes",
                "        scf.yield %b",
                "      }",
                "      scf.yield %z",
                "    }",
                "    scf.yield %y",
                "  }",
                "  func.return %x",
                "}",
            ] {
                self.line(1, l);
            }
        }
        self.c_extern("__bytes_get_or_panic", &[b, i], "core.i32", "intrinsic");
        for l in [
            // concatenation that keeps sizes bounded
            "func.func @join(%a: core.bytes, %b: core.bytes) -> core.bytes {",
            "  %n = func.call %a {callee = @__tribute_bytes_len} : core.i32",
            "  %m = func.call %b {callee = @__tribute_bytes_len} : core.i32",
            "  %t = arith.addi %n, %m : core.i32",
            "  %k = arith.const {value = 90} : core.i32",
            "  %c = arith.cmpi %t, %k {predicate = @slt} : core.i1",
            "  %r = scf.if %c : core.bytes {",
            "    %x = func.call %a, %b {callee = @__tribute_bytes_concat} : core.bytes",
            "    scf.yield %x",
            "  } {",
            "    scf.yield %a",
            "  }",
            "  func.return %r",
            "}",
            "func.func @obs_bytes(%a: core.bytes, %i: core.i32) -> core.nil {",
            "  %n = func.call %a {callee = @__tribute_bytes_len} : core.i32",
            "  %c = arith.cmpi %i, %n {predicate = @slt} : core.i1",
            "  %r = scf.if %c : core.nil {",
            "    %x = func.call %a, %i {callee = @__bytes_get_or_panic} : core.i32",
            "    %y = func.call %x {callee = @v_rec_i32} : core.nil",
            "    %one = arith.const {value = 1} : core.i32",
            "    %j = arith.addi %i, %one : core.i32",
            "    %z = func.call %a, %j {callee = @obs_bytes} : core.nil",
            "    scf.yield %z",
            "  } {",
            "    %y = func.call %n {callee = @v_rec_i32} : core.nil",
            "    scf.yield %y",
            "  }",
            "  func.return %r",
            "}",
        ] {
            self.line(1, l);
        }
    }

    fn cond(&mut self, sc: &mut Scope, ind: usize) -> String {
        self.value(sc, ind, Ty::I1, 0)
    }

    fn arith_stmt(&mut self, sc: &mut Scope, ind: usize) {
        let t = self.pick_scalar();
        let (v, rt, l);
        let r = self.rng.below(100);
        if t == Ty::I1 || r < 25 {
            // comparison or boolean op
            if t == Ty::I1 && self.rng.chance(40) {
                let a = self.value(sc, ind, Ty::I1, 0);
                let b = self.value(sc, ind, Ty::I1, 0);
                v = self.fresh();
                let op = *self.rng.pick(&["and", "or", "xor"]);
                l = format!("{v} = arith.{op} {a}, {b} : core.i1");
            } else {
                let t = loop {
                    let t = self.pick_scalar();
                    if t != Ty::I1 {
                        break t;
                    }
                };
                let a = self.value(sc, ind, t, 0);
                let b = self.value(sc, ind, t, 0);
                v = self.fresh();
                if is_float(t) {
                    let p = *self.rng.pick(&["oeq", "une", "olt", "ole", "ogt", "oge"]);
                    l = format!("{v} = arith.cmpf {a}, {b} {{predicate = @{p}}} : core.i1");
                } else {
                    let ps: &[&str] = if self.f.unsigned_cmp {
                        &["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]
                    } else {
                        &["eq", "ne", "slt", "sle", "sgt", "sge"]
                    };
                    let p = *self.rng.pick(ps);
                    l = format!("{v} = arith.cmpi {a}, {b} {{predicate = @{p}}} : core.i1");
                }
            }
            rt = Ty::I1;
        } else if is_float(t) {
            if self.rng.chance(15) {
                let a = self.value(sc, ind, t, 0);
                v = self.fresh();
                l = format!("{v} = arith.negf {a} : core.{}", scalar_name(t));
            } else {
                let a = self.value(sc, ind, t, 0);
                let b = self.value(sc, ind, t, 0);
                let op = *self.rng.pick(&["addf", "subf", "mulf", "divf"]);
                v = self.fresh();
                l = format!("{v} = arith.{op} {a}, {b} : core.{}", scalar_name(t));
            }
            rt = t;
        } else if self.f.conv && r < 35 {
            // conversion
            let u = self.pick_scalar();
            if let Some(x) = self.conv_stmt(sc, ind, t, u) {
                sc.push((x, u));
            }
            return;
        } else if r < 45 {
            let a = self.value(sc, ind, t, 0);
            v = self.fresh();
            l = format!("{v} = arith.negi {a} : core.{}", scalar_name(t));
            rt = t;
        } else if r < 57 {
            let a = self.value(sc, ind, t, 0);
            let raw = self.value(sc, ind, t, 0);
            let op = *self.rng.pick(&["divsi", "divui", "remsi", "remui"]);
            let b = if self.f.traps && self.rng.chance(10) {
                raw
            } else if self.rng.chance(30) {
                // constant divisor, never 0 and never -1
                let k = *self.rng.pick(&[1, 2, 3, 5, 7, 10, -2, -3, -7, 16, 127]);
                self.int_const(ind, t, k)
            } else {
                // (raw & 15) + 1
                let m = self.int_const(ind, t, 15);
                let x = self.fresh();
                let l = format!("{x} = arith.and {raw}, {m} : core.{}", scalar_name(t));
                self.line(ind, &l);
                let one = self.int_const(ind, t, 1);
                let y = self.fresh();
                let l = format!("{y} = arith.addi {x}, {one} : core.{}", scalar_name(t));
                self.line(ind, &l);
                y
            };
            v = self.fresh();
            l = format!("{v} = arith.{op} {a}, {b} : core.{}", scalar_name(t));
            rt = t;
        } else {
            let a = self.value(sc, ind, t, 0);
            let b = if self.f.const_heavy && self.rng.chance(50) {
                self.emit_const(ind, t)
            } else {
                self.value(sc, ind, t, 0)
            };
            let (a, b) = if self.rng.chance(30) { (b, a) } else { (a, b) };
            let op = *self.rng.pick(&["addi", "subi", "muli", "and", "or", "xor", "shl", "shr", "shru", "addi", "subi", "muli"]);
            v = self.fresh();
            l = format!("{v} = arith.{op} {a}, {b} : core.{}", scalar_name(t));
            rt = t;
        }
        self.line(ind, &l);
        sc.push((v, rt));
    }

    fn conv_stmt(&mut self, sc: &mut Scope, ind: usize, from: Ty, to: Ty) -> Option<String> {
        if from == to || to == Ty::I1 || from == Ty::I1 {
            return None;
        }
        let a = self.value(sc, ind, from, 0);
        let (fw, tw) = (width(from), width(to));
        let op = if is_int(from) && is_int(to) {
            if tw > fw { if self.rng.chance(50) { "extend" } else { "cast" } } else if self.rng.chance(50) { "trunc" } else { "cast" }
        } else if is_int(from) && is_float(to) {
            if !self.f.float_conv || fw < 32 {
                return None;
            }
            "convert"
        } else {
            return None;
        };
        let v = self.fresh();
        let l = format!("{v} = arith.{op} {a} : core.{}", scalar_name(to));
        self.line(ind, &l);
        Some(v)
    }

    fn record(&mut self, sc: &mut Scope, ind: usize) {
        let t = self.pick_scalar();
        let a = self.value(sc, ind, t, 0);
        let v = self.fresh();
        let n = scalar_name(t);
        let l = format!("{v} = func.call {a} {{callee = @v_rec_{n}}} : core.nil");
        self.line(ind, &l);
    }

    fn effect(&mut self, sc: &mut Scope, ind: usize) {
        let a = self.value(sc, ind, Ty::I32, 0);
        let v = self.fresh();
        let l = format!("{v} = func.call {a} {{callee = @v_eff_i32}} : core.i32");
        self.line(ind, &l);
        sc.push((v, Ty::I32));
    }

    fn call(&mut self, sc: &mut Scope, ind: usize) {
        if self.funcs.is_empty() {
            return self.arith_stmt(sc, ind);
        }
        if self.f.indirect && !self.sigs.is_empty() && self.rng.chance(22) {
            let s = self.rng.below(self.sigs.len());
            let sig = self.sigs[s].clone();
            if self.funcs.iter().any(|(_, g)| g.params == sig.params && g.ret == sig.ret) {
                let f = self.value(sc, ind, Ty::Fn(s), 0);
                let mut args = vec![f];
                for p in &sig.params {
                    args.push(self.value(sc, ind, *p, 0));
                }
                let v = self.fresh();
                let l = format!("{v} = func.call_indirect {} : {}", args.join(", "), self.ret_text(sig.ret));
                self.line(ind, &l);
                if let Some(r) = sig.ret {
                    sc.push((v, r));
                }
                return;
            }
        }
        let i = self.rng.below(self.funcs.len());
        let (n, sig) = self.funcs[i].clone();
        let args: Vec<String> = sig.params.iter().map(|p| self.value(sc, ind, *p, 0)).collect();
        let v = self.fresh();
        let sep = if args.is_empty() { "" } else { " " };
        let l = format!("{v} = func.call{sep}{} {{callee = @{n}}} : {}", args.join(", "), self.ret_text(sig.ret));
        self.line(ind, &l);
        if let Some(r) = sig.ret {
            sc.push((v, r));
        }
    }

    fn if_stmt(&mut self, sc: &mut Scope, ind: usize, d: u32) {
        let c = if self.f.const_heavy && self.rng.chance(25) { self.emit_const(ind, Ty::I1) } else { self.cond(sc, ind) };
        let res = if self.f.nil_results && self.rng.chance(25) { None } else { Some(self.pick_ty()) };
        let v = self.fresh();
        let rt = self.ret_text(res);
        let l = format!("{v} = scf.if {c} : {rt} {{");
        self.line(ind, &l);
        for br in 0..2 {
            let mut inner = sc.clone();
            let n = self.rng.below(self.f.stmts / 2 + 1);
            self.stmts(&mut inner, ind + 1, n, d + 1);
            match res {
                Some(t) => {
                    let x = self.value(&mut inner, ind + 1, t, 1);
                    let l = format!("scf.yield {x}");
                    self.line(ind + 1, &l);
                }
                None => {
                    let x = self.fresh();
                    let l = format!("{x} = arith.const {{value = unit}} : core.nil");
                    self.line(ind + 1, &l);
                    let l = format!("scf.yield {x}");
                    self.line(ind + 1, &l);
                }
            }
            self.line(ind, if br == 0 { "} {" } else { "}" });
        }
        if let Some(t) = res {
            sc.push((v, t));
        }
    }

    fn switch_stmt(&mut self, sc: &mut Scope, ind: usize, d: u32) {
        let t = *self.rng.pick(&[Ty::I32, Ty::I32, Ty::I64]);
        if !self.f.scalars.contains(&t) {
            return;
        }
        // squeeze the discriminant into a small range
        let raw = self.value(sc, ind, t, 0);
        let m = self.int_const(ind, t, 3);
        let x = self.fresh();
        let l = format!("{x} = arith.and {raw}, {m} : core.{}", scalar_name(t));
        self.line(ind, &l);
        let l = format!("scf.switch {x} {{");
        self.line(ind, &l);
        let mut cases: Vec<i64> = (0..4).collect();
        self.rng.shuffle(&mut cases);
        let n = self.rng.below(5);
        for k in cases.iter().take(n) {
            let l = format!("scf.case {{value = {k}}} {{");
            self.line(ind + 1, &l);
            let mut inner = sc.clone();
            let m = 1 + self.rng.below(2);
            self.stmts(&mut inner, ind + 2, m, d + 1);
            self.record(&mut inner, ind + 2);
            self.line(ind + 2, "scf.yield");
            self.line(ind + 1, "}");
        }
        if n == 0 || self.rng.chance(70) {
            self.line(ind + 1, "scf.default {");
            let mut inner = sc.clone();
            self.stmts(&mut inner, ind + 2, 1, d + 1);
            self.record(&mut inner, ind + 2);
            self.line(ind + 2, "scf.yield");
            self.line(ind + 1, "}");
        }
        self.line(ind, "}");
    }

    fn loop_stmt(&mut self, sc: &mut Scope, ind: usize, d: u32) {
        let single = self.f.loops == Loops::Single;
        let n_extra = if single { 0 } else { self.rng.below(3) };
        let mut carried: Vec<Ty> = vec![Ty::I32];
        for _ in 0..n_extra {
            let t = self.pick_ty();
            carried.push(t);
        }
        let zero = self.int_const(ind, Ty::I32, 0);
        let mut inits = vec![zero];
        for t in carried[1..].to_vec() {
            inits.push(self.value(sc, ind, t, 1));
        }
        let res_i = self.rng.below(carried.len());
        let rt = carried[res_i];
        let v = self.fresh();
        let l = format!("{v} = scf.loop {} : {} {{", inits.join(", "), self.ty_text(rt));
        self.line(ind, &l);
        let params: Vec<String> = carried.iter().map(|_| self.fresh()).collect();
        let ps: Vec<String> = params.iter().zip(&carried).map(|(p, t)| format!("{p}: {}", self.ty_text(*t))).collect();
        let l = format!("^bb{}({}):", self.next, ps.join(", "));
        self.line(ind, &l);
        let mut inner = sc.clone();
        for (p, t) in params.iter().zip(&carried) {
            inner.push((p.clone(), *t));
        }
        let trips = 1 + self.rng.below(4) as i64;
        let lim = self.int_const(ind + 1, Ty::I32, trips);
        let c = self.fresh();
        let l = format!("{c} = arith.cmpi {}, {lim} {{predicate = @sge}} : core.i1", params[0]);
        self.line(ind + 1, &l);
        let shape = if self.f.strict_loops { 0 } else { self.rng.below(4) };
        if shape == 0 {
            let l = format!("scf.switch {} {{", params[0]);
            self.line(ind + 1, &l);
            let l = format!("scf.case {{value = {trips}}} {{");
            self.line(ind + 2, &l);
            let mut e = inner.clone();
            let n = self.rng.below(2);
            self.stmts(&mut e, ind + 3, n, d + 1);
            let r = self.value(&mut e, ind + 3, rt, 1);
            let l = format!("scf.break {r}");
            self.line(ind + 3, &l);
            self.line(ind + 2, "}");
            self.line(ind + 2, "scf.default {");
            self.loop_body(&mut inner, ind + 3, d, &params, &carried);
            self.line(ind + 2, "}");
            self.line(ind + 1, "}");
            self.line(ind + 1, "func.unreachable");
        } else if shape == 1 {
            // if (done) break; rest ; continue
            let x = self.fresh();
            let l = format!("{x} = scf.if {c} : core.nil {{");
            self.line(ind + 1, &l);
            let l = format!("scf.break {}", params[res_i]);
            self.line(ind + 2, &l);
            self.line(ind + 1, "} {");
            let u = self.fresh();
            let l = format!("{u} = arith.const {{value = unit}} : core.nil");
            self.line(ind + 2, &l);
            let l = format!("scf.yield {u}");
            self.line(ind + 2, &l);
            self.line(ind + 1, "}");
            self.loop_body(&mut inner, ind + 1, d, &params, &carried);
        } else {
            let x = self.fresh();
            let l = format!("{x} = scf.if {c} : core.nil {{");
            self.line(ind + 1, &l);
            let mut e = inner.clone();
            let n = self.rng.below(2);
            self.stmts(&mut e, ind + 2, n, d + 1);
            let r = self.value(&mut e, ind + 2, rt, 1);
            let l = format!("scf.break {r}");
            self.line(ind + 2, &l);
            self.line(ind + 1, "} {");
            self.loop_body(&mut inner, ind + 2, d, &params, &carried);
            self.line(ind + 1, "}");
            // the region needs a terminator that can never run
            self.line(ind + 1, "func.unreachable");
        }
        self.line(ind, "}");
        sc.push((v, rt));
    }

    fn loop_body(&mut self, sc: &mut Scope, ind: usize, d: u32, params: &[String], carried: &[Ty]) {
        let n = 1 + self.rng.below(3);
        self.stmts(sc, ind, n, d + 1);
        let one = self.int_const(ind, Ty::I32, 1);
        let nx = self.fresh();
        let l = format!("{nx} = arith.addi {}, {one} : core.i32", params[0]);
        self.line(ind, &l);
        let mut args = vec![nx];
        for t in &carried[1..] {
            args.push(self.value(sc, ind, *t, 1));
        }
        let l = format!("scf.continue {}", args.join(", "));
        self.line(ind, &l);
    }

    fn adt_stmt(&mut self, sc: &mut Scope, ind: usize, d: u32) {
        let r = self.rng.below(100);
        if r < 35 && !self.structs.is_empty() {
            // read a field
            let k = self.rng.below(self.structs.len());
            let fs = self.structs[k].fields.clone();
            let o = self.value(sc, ind, Ty::S(k), 0);
            let name = self.structs[k].name.clone();
            let i = self.rng.below(fs.len());
            let src = if self.rng.chance(50) {
                let c = self.fresh();
                let l = format!("{c} = core.unrealized_conversion_cast {o} : !{name}");
                self.line(ind, &l);
                c
            } else {
                let c = self.fresh();
                let l = format!("{c} = adt.ref_cast {o} {{type = !{name}}} : !{name}");
                self.line(ind, &l);
                c
            };
            let v = self.fresh();
            let l = format!("{v} = adt.struct_get {src} {{field = {i}, type = !{name}}} : {}", self.ty_text(fs[i]));
            self.line(ind, &l);
            sc.push((v, fs[i]));
        } else if r < 45 && self.f.struct_set && !self.structs.is_empty() {
            let k = self.rng.below(self.structs.len());
            let fs = self.structs[k].fields.clone();
            let scal: Vec<usize> = (0..fs.len()).filter(|i| is_scalar(fs[*i])).collect();
            if scal.is_empty() {
                return;
            }
            let i = *self.rng.pick(&scal);
            let o = self.value(sc, ind, Ty::S(k), 0);
            let x = self.value(sc, ind, fs[i], 0);
            let name = self.structs[k].name.clone();
            let c = self.fresh();
            let l = format!("{c} = core.unrealized_conversion_cast {o} : !{name}");
            self.line(ind, &l);
            let l = format!("adt.struct_set {c}, {x} {{field = {i}, type = !{name}}}");
            self.line(ind, &l);
        } else if !self.enums.is_empty() {
            // match
            let k = self.rng.below(self.enums.len());
            let o = self.value(sc, ind, Ty::E(k), 0);
            let res = self.pick_ty();
            let v = self.match_chain(sc, ind, d, k, &o, 0, res);
            sc.push((v, res));
        }
    }

    fn match_chain(&mut self, sc: &mut Scope, ind: usize, d: u32, k: usize, o: &str, i: usize, res: Ty) -> String {
        let (vn, fs) = self.enums[k].variants[i].clone();
        let name = self.enums[k].name.clone();
        let last = i + 1 == self.enums[k].variants.len();
        let t = self.fresh();
        let l = format!("{t} = adt.variant_is {o} {{tag = @{vn}, type = !{name}}} : core.i1");
        self.line(ind, &l);
        let v = self.fresh();
        let l = format!("{v} = scf.if {t} : {} {{", self.ty_text(res));
        self.line(ind, &l);
        let mut inner = sc.clone();
        let c = self.fresh();
        let l = format!("{c} = adt.variant_cast {o} {{tag = @{vn}, type = !{name}}} : !{name}");
        self.line(ind + 1, &l);
        for (j, f) in fs.iter().enumerate() {
            if self.rng.chance(75) {
                let g = self.fresh();
                let l = format!("{g} = adt.variant_get {c} {{field = {j}, tag = @{vn}, type = !{name}}} : {}", self.ty_text(*f));
                self.line(ind + 1, &l);
                inner.push((g, *f));
            }
        }
        let n = self.rng.below(3);
        self.stmts(&mut inner, ind + 1, n, d + 1);
        let y = self.value(&mut inner, ind + 1, res, 1);
        let l = format!("scf.yield {y}");
        self.line(ind + 1, &l);
        self.line(ind, "} {");
        let mut inner = sc.clone();
        let y = if last || self.rng.chance(30) {
            self.value(&mut inner, ind + 1, res, 1)
        } else {
            self.match_chain(&mut inner, ind + 1, d, k, o, i + 1, res)
        };
        let l = format!("scf.yield {y}");
        self.line(ind + 1, &l);
        self.line(ind, "}");
        v
    }

    fn unbox_stmt(&mut self, sc: &mut Scope, ind: usize) {
        let Ty::Box(b) = self.pick_box() else { unreachable!() };
        let o = self.value(sc, ind, Ty::Box(b), 0);
        let s = [Ty::I32, Ty::F64, Ty::I1, Ty::Bytes][b as usize];
        let v = self.fresh();
        let l = format!("{v} = core.unrealized_conversion_cast {o} : {}", self.ty_text(s));
        self.line(ind, &l);
        sc.push((v, s));
    }

    fn stmts(&mut self, sc: &mut Scope, ind: usize, n: usize, d: u32) {
        for _ in 0..n {
            self.budget -= 1;
            let over = self.nlines > self.cap;
            if over && self.rng.chance(70) {
                continue;
            }
            let deep = d >= self.f.depth || self.budget < 0 || over;
            let mut r = self.rng.below(100);
            if self.f.cf_bias && !deep && self.rng.chance(45) {
                r = 77 + self.rng.below(23);
            }
            if self.f.heap_bias && self.rng.chance(40) {
                r = if self.rng.chance(60) { 59 + self.rng.below(18) } else { 34 + self.rng.below(12) };
            }
            if self.f.bytes && self.rng.chance(12) {
                self.bytes_stmt(sc, ind);
                continue;
            }
            if self.f.straight && r >= 77 {
                r = self.rng.below(77);
            }
            if r < 34 {
                self.arith_stmt(sc, ind);
            } else if r < 46 {
                self.call(sc, ind);
            } else if r < 54 {
                self.record(sc, ind);
            } else if r < 59 {
                self.effect(sc, ind);
            } else if r < 72 && self.f.adt {
                if deep { self.arith_stmt(sc, ind) } else { self.adt_stmt(sc, ind, d) }
            } else if r < 77 && self.f.boxing {
                self.unbox_stmt(sc, ind);
            } else if r < 89 && !deep {
                self.if_stmt(sc, ind, d);
            } else if r < 94 && !deep && self.f.switch {
                self.switch_stmt(sc, ind, d);
            } else if r < 100 && !deep && self.f.loops != Loops::No {
                self.loop_stmt(sc, ind, d);
            } else {
                self.arith_stmt(sc, ind);
            }
        }
    }

    fn decl_types(&mut self) {
        if !self.f.adt {
            return;
        }
        let ns = 1 + self.rng.below(3);
        for i in 0..ns {
            let n = 1 + self.rng.below(5);
            let mut fields = vec![];
            for _ in 0..n {
                let t = self.field_ty(i, 0);
                fields.push(t);
            }
            self.structs.push(StructDecl { name: format!("S{i}"), fields });
        }
        let ne = if self.f.straight { 0 } else { 1 + self.rng.below(2) };
        for i in 0..ne {
            let nv = 2 + self.rng.below(3);
            let mut variants = vec![];
            for j in 0..nv {
                let n = self.rng.below(4);
                let mut fs = vec![];
                for _ in 0..n {
                    let t = if j > 0 && self.rng.chance(30) { Ty::E(i) } else { self.field_ty(ns, i) };
                    fs.push(t);
                }
                variants.push((format!("V{j}"), fs));
            }
            self.enums.push(EnumDecl { name: format!("E{i}"), variants });
        }
        if self.f.strings && !self.f.straight {
            let k = self.enums.len();
            let variants = vec![("Leaf".to_string(), vec![Ty::Bytes]), ("Branch".to_string(), vec![Ty::E(k), Ty::E(k), Ty::I32])];
            self.enums.push(EnumDecl { name: "String".into(), variants });
        }
    }

    fn field_ty(&mut self, ns: usize, ne: usize) -> Ty {
        let r = self.rng.below(100);
        if r < 15 && ns > 0 {
            Ty::S(self.rng.below(ns))
        } else if r < 25 && ne > 0 {
            Ty::E(self.rng.below(ne))
        } else if r < 35 && self.f.boxing {
            self.pick_box()
        } else if r < 45 && self.f.bytes {
            Ty::Bytes
        } else {
            self.pick_scalar()
        }
    }

    fn func(&mut self, name: &str, sig: &Sig) {
        let params: Vec<String> = sig.params.iter().map(|_| self.fresh()).collect();
        let ps: Vec<String> = params.iter().zip(&sig.params).map(|(p, t)| format!("{p}: {}", self.ty_text(*t))).collect();
        let l = format!("func.func @{name}({}) -> {} {{", ps.join(", "), self.ret_text(sig.ret));
        self.line(1, &l);
        let mut sc: Scope = params.into_iter().zip(sig.params.iter().copied()).collect();
        if sc.len() >= 4 && self.rng.chance(70) {
            for (v, t) in sc.clone() {
                if is_scalar(t) {
                    let u = self.fresh();
                    let l = format!("{u} = func.call {v} {{callee = @v_rec_{}}} : core.nil", scalar_name(t));
                    self.line(2, &l);
                }
            }
        }
        let small = self.rng.chance(45);
        self.budget = if small { 4 } else { 40 };
        let n = if small { 1 + self.rng.below(3) } else { 2 + self.rng.below(self.f.stmts) };
        self.stmts(&mut sc, 2, n, if small { self.f.depth.saturating_sub(1) } else { 0 });
        // tail call now and then
        if self.f.tail_calls && self.rng.chance(20) {
            let c: Vec<(String, Sig)> = self.funcs.iter().filter(|(_, g)| g.ret == sig.ret).cloned().collect();
            if !c.is_empty() {
                let (n, g) = self.rng.pick(&c).clone();
                let args: Vec<String> = g.params.iter().map(|p| self.value(&mut sc, 2, *p, 0)).collect();
                let sep = if args.is_empty() { "" } else { " " };
                let l = format!("func.tail_call{sep}{} {{callee = @{n}}}", args.join(", "));
                self.line(2, &l);
                self.line(1, "}");
                return;
            }
        }
        self.ret(&mut sc, 2, sig.ret);
        self.line(1, "}");
    }

    fn ret(&mut self, sc: &mut Scope, ind: usize, ret: Option<Ty>) {
        match ret {
            Some(t) => {
                let v = self.value(sc, ind, t, 0);
                let l = format!("func.return {v}");
                self.line(ind, &l);
            }
            None => {
                let v = self.fresh();
                let l = format!("{v} = arith.const {{value = unit}} : core.nil");
                self.line(ind, &l);
                let l = format!("func.return {v}");
                self.line(ind, &l);
            }
        }
    }

    /// self-recursive function: counts its first parameter down
    fn rec_func(&mut self, name: &str, sig: &Sig) {
        let params: Vec<String> = sig.params.iter().map(|_| self.fresh()).collect();
        let ps: Vec<String> = params.iter().zip(&sig.params).map(|(p, t)| format!("{p}: {}", self.ty_text(*t))).collect();
        let l = format!("func.func @{name}({}) -> {} {{", ps.join(", "), self.ret_text(sig.ret));
        self.line(1, &l);
        let mut sc: Scope = params.iter().cloned().zip(sig.params.iter().copied()).collect();
        let m = self.int_const(2, Ty::I32, 7);
        let n = self.fresh();
        let l = format!("{n} = arith.and {}, {m} : core.i32", params[0]);
        self.line(2, &l);
        let zero = self.int_const(2, Ty::I32, 0);
        let c = self.fresh();
        let l = format!("{c} = arith.cmpi {n}, {zero} {{predicate = @sle}} : core.i1");
        self.line(2, &l);
        let v = self.fresh();
        let l = format!("{v} = scf.if {c} : {} {{", self.ret_text(sig.ret));
        self.line(2, &l);
        self.budget = 6;
        let mut a = sc.clone();
        self.stmts(&mut a, 3, 1, self.f.depth);
        let y = match sig.ret {
            Some(t) => self.value(&mut a, 3, t, 1),
            None => {
                let u = self.fresh();
                let l = format!("{u} = arith.const {{value = unit}} : core.nil");
                self.line(3, &l);
                u
            }
        };
        let l = format!("scf.yield {y}");
        self.line(3, &l);
        self.line(2, "} {");
        let mut b = sc.clone();
        self.stmts(&mut b, 3, 2, self.f.depth);
        let one = self.int_const(3, Ty::I32, 1);
        let n1 = self.fresh();
        let l = format!("{n1} = arith.subi {n}, {one} : core.i32");
        self.line(3, &l);
        let mut args = vec![n1];
        for p in &sig.params[1..] {
            args.push(self.value(&mut b, 3, *p, 1));
        }
        let r = self.fresh();
        let l = format!("{r} = func.call {} {{callee = @{name}}} : {}", args.join(", "), self.ret_text(sig.ret));
        self.line(3, &l);
        let y = match sig.ret {
            Some(t) => {
                b.push((r, t));
                self.stmts(&mut b, 3, 1, self.f.depth);
                self.value(&mut b, 3, t, 1)
            }
            None => r,
        };
        let l = format!("scf.yield {y}");
        self.line(3, &l);
        self.line(2, "}");
        if let Some(t) = sig.ret {
            sc.push((v.clone(), t));
        }
        let l = format!("func.return {v}");
        self.line(2, &l);
        self.line(1, "}");
    }

    /// Emit the whole module. `@main` is the only root.
    pub fn module(&mut self) -> String {
        self.cap = match self.rng.below(20) {
            0..=9 => 60 + self.rng.below(60),
            10..=16 => 150 + self.rng.below(150),
            _ => 500 + self.rng.below(500),
        };
        self.line(0, "core.module @prog {");
        self.decl_types();
        for s in 0..self.structs.len() {
            let fs: Vec<String> = self.structs[s].fields.iter().enumerate().map(|(i, t)| format!("[@f{i}, {}]", self.ty_text(*t))).collect();
            let n = self.structs[s].name.clone();
            let l = format!("!{n} = adt.struct() {{fields = [{}], name = @{n}}}", fs.join(", "));
            self.line(1, &l);
        }
        for e in 0..self.enums.len() {
            let vs: Vec<String> = self.enums[e]
                .variants
                .iter()
                .map(|(v, fs)| format!("[@{v}, [{}]]", fs.iter().map(|t| self.ty_text(*t)).collect::<Vec<_>>().join(", ")))
                .collect();
            let n = self.enums[e].name.clone();
            let l = format!("!{n} = adt.enum() {{name = @{n}, variants = [{}]}}", vs.join(", "));
            self.line(1, &l);
        }
        if self.f.read {
            self.line(1, "!R = adt.enum() {name = @\"std::io::ReadLineResult\", variants = [[@ReadLine, [core.bytes]], [@ReadEndOfFile, []], [@ReadInvalidEncoding, []], [@ReadSystem, [core.i32, core.bytes]]]}");
        }
        let mut scal = self.f.scalars.clone();
        if !scal.contains(&Ty::I1) {
            scal.push(Ty::I1);
        }
        scal.sort_by_key(|t| scalar_name(*t));
        scal.dedup();
        for t in scal {
            let n = scalar_name(t);
            self.extern_decl(&format!("v_in_{n}"), &["core.i32".to_string()], &format!("core.{n}"));
            self.extern_decl(&format!("v_rec_{n}"), &[format!("core.{n}")], "core.nil");
        }
        self.extern_decl("v_eff_i32", &["core.i32".to_string()], "core.i32");

        if self.f.bytes {
            self.bytes_decls();
        }
        let nf = 1 + self.rng.below(self.f.funcs);
        for i in 0..nf {
            if i > 1 && self.nlines > self.cap {
                break;
            }
            let np = if self.rng.chance(10) { 4 + self.rng.below(9) } else { self.rng.below(4) };
            let mut params: Vec<Ty> = (0..np).map(|_| self.pick_ty()).collect();
            let ret = if self.rng.chance(8) { None } else { Some(self.pick_ty()) };
            let rec = self.f.recursion && self.rng.chance(18);
            if rec {
                params.insert(0, Ty::I32);
            }
            let sig = Sig { params, ret };
            let mut name = format!("f{i}");
            let wrap = self.f.nested && self.rng.chance(50);
            if wrap {
                let m = self.rng.below(3);
                if self.rng.chance(50) {
                    name = format!("\"ns{m}::f{i}\"");
                }
                let l = format!("core.module @ns{m} {{");
                self.line(1, &l);
                if self.rng.chance(25) {
                    self.line(1, "core.module @deep {");
                    self.nest = 2;
                } else {
                    self.nest = 1;
                }
            }
            if rec {
                self.rec_func(&name, &sig);
            } else {
                self.func(&name, &sig);
            }
            for _ in 0..std::mem::take(&mut self.nest) {
                self.line(1, "}");
            }
            self.funcs.push((name, sig.clone()));
            let known = self.sigs.iter().any(|s| s.params == sig.params && s.ret == sig.ret);
            let simple = !sig.params.iter().chain(sig.ret.iter()).any(|t| matches!(t, Ty::Fn(_)));
            if !known && simple {
                self.sigs.push(sig);
            }
        }
        // main
        self.in_main = true;
        self.line(1, "func.func @main() -> core.nil {");
        let mut sc: Scope = vec![];
        let fs = self.funcs.clone();
        self.budget = 60;
        for (n, sig) in fs {
            if self.f.dead_funcs && self.rng.chance(20) {
                continue;
            }
            for _ in 0..1 + self.rng.below(2) {
                let args: Vec<String> = sig.params.iter().map(|p| self.value(&mut sc, 2, *p, 0)).collect();
                let v = self.fresh();
                let sep = if args.is_empty() { "" } else { " " };
                let l = format!("{v} = func.call{sep}{} {{callee = @{n}}} : {}", args.join(", "), self.ret_text(sig.ret));
                self.line(2, &l);
                if let Some(t) = sig.ret {
                    sc.push((v.clone(), t));
                    self.observe(&mut sc, 2, &v, t, 0);
                }
            }
        }
        let n = 1 + self.rng.below(self.f.stmts);
        self.stmts(&mut sc, 2, n, 0);
        let keep = if self.nlines > self.cap { 3 } else { 6 };
        let all: Vec<(String, Ty)> = sc.iter().rev().take(keep).cloned().collect();
        for (v, t) in all {
            self.observe(&mut sc, 2, &v, t, 0);
        }
        self.ret(&mut sc, 2, None);
        self.line(1, "}");
        self.line(0, "}");
        std::mem::take(&mut self.out)
    }

    /// record everything reachable (bounded) from `v`
    fn observe(&mut self, sc: &mut Scope, ind: usize, v: &str, t: Ty, d: u32) {
        match t {
            t if is_scalar(t) => {
                let x = self.fresh();
                let l = format!("{x} = func.call {v} {{callee = @v_rec_{}}} : core.nil", scalar_name(t));
                self.line(ind, &l);
            }
            Ty::Box(b) => {
                let s = [Ty::I32, Ty::F64, Ty::I1, Ty::Bytes][b as usize];
                let x = self.fresh();
                let l = format!("{x} = core.unrealized_conversion_cast {v} : {}", self.ty_text(s));
                self.line(ind, &l);
                self.observe(sc, ind, &x, s, d);
            }
            Ty::S(k) if d < 3 && (d == 0 || self.nlines < self.cap) => {
                let name = self.structs[k].name.clone();
                let fs = self.structs[k].fields.clone();
                let c = self.fresh();
                let l = format!("{c} = core.unrealized_conversion_cast {v} : !{name}");
                self.line(ind, &l);
                for (i, f) in fs.iter().enumerate() {
                    let g = self.fresh();
                    let l = format!("{g} = adt.struct_get {c} {{field = {i}, type = !{name}}} : {}", self.ty_text(*f));
                    self.line(ind, &l);
                    self.observe(sc, ind, &g, *f, d + 1);
                }
            }
            Ty::E(k) if d < 2 && (d == 0 || self.nlines < self.cap) => {
                let name = self.enums[k].name.clone();
                for (j, (vn, fs)) in self.enums[k].variants.clone().into_iter().enumerate() {
                    let b = self.fresh();
                    let l = format!("{b} = adt.variant_is {v} {{tag = @{vn}, type = !{name}}} : core.i1");
                    self.line(ind, &l);
                    let r = self.fresh();
                    let l = format!("{r} = scf.if {b} : core.nil {{");
                    self.line(ind, &l);
                    let tagv = self.int_const(ind + 1, Ty::I32, 1000 + j as i64);
                    self.observe(sc, ind + 1, &tagv, Ty::I32, d);
                    let c = self.fresh();
                    let l = format!("{c} = adt.variant_cast {v} {{tag = @{vn}, type = !{name}}} : !{name}");
                    self.line(ind + 1, &l);
                    for (i, f) in fs.iter().enumerate() {
                        let g = self.fresh();
                        let l = format!("{g} = adt.variant_get {c} {{field = {i}, tag = @{vn}, type = !{name}}} : {}", self.ty_text(*f));
                        self.line(ind + 1, &l);
                        self.observe(sc, ind + 1, &g, *f, d + 1);
                    }
                    let u = self.fresh();
                    let l = format!("{u} = arith.const {{value = unit}} : core.nil");
                    self.line(ind + 1, &l);
                    let l = format!("scf.yield {u}");
                    self.line(ind + 1, &l);
                    self.line(ind, "} {");
                    let u = self.fresh();
                    let l = format!("{u} = arith.const {{value = unit}} : core.nil");
                    self.line(ind + 1, &l);
                    let l = format!("scf.yield {u}");
                    self.line(ind + 1, &l);
                    self.line(ind, "}");
                }
            }
            Ty::Bytes => {
                let z = self.int_const(ind, Ty::I32, 0);
                let x = self.fresh();
                let l = format!("{x} = func.call {v}, {z} {{callee = @obs_bytes}} : core.nil");
                self.line(ind, &l);
            }
            _ => {}
        }
    }

    fn c_extern(&mut self, name: &str, params: &[String], ret: &str, abi: &str) {
        let ps: Vec<String> = params.iter().enumerate().map(|(i, p)| format!("%a{i}: {p}")).collect();
        let l = format!("func.func @{name}({}) -> {ret} attributes {{abi = \"{abi}\"}} {{", ps.join(", "));
        self.line(1, &l);
        self.line(2, "func.unreachable");
        self.line(1, "}");
    }

    fn extern_decl(&mut self, name: &str, params: &[String], ret: &str) {
        match self.f.externs {
            Externs::Abi => {
                let ps: Vec<String> = params.iter().enumerate().map(|(i, p)| format!("%a{i}: {p}")).collect();
                let l = format!("func.func @{name}({}) -> {ret} attributes {{abi = \"C\"}} {{", ps.join(", "));
                self.line(1, &l);
                self.line(2, "func.unreachable");
                self.line(1, "}");
            }
            Externs::WasmImport => {
                let mut s = format!("core.func({ret}");
                for p in params {
                    let _ = write!(s, ", {p}");
                }
                s.push(')');
                let l = format!("wasm.import_func {{module = @env, name = @{name}, sym_name = @{name}, type = {s}}}");
                self.line(1, &l);
            }
        }
    }
}

/// One function applying many single operators to opaque operands.
pub fn operator_battery(rng: &mut Rng) -> String {
    let mut f = Features::native();
    f.adt = false;
    f.boxing = false;
    f.indirect = false;
    let mut g = Gen::new(rng, f);
    g.cap = usize::MAX;
    g.n_inputs = 16;
    g.line(0, "core.module @prog {");
    for t in [Ty::I1, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::F32, Ty::F64] {
        let n = scalar_name(t);
        g.extern_decl(&format!("v_in_{n}"), &["core.i32".to_string()], &format!("core.{n}"));
        g.extern_decl(&format!("v_rec_{n}"), &[format!("core.{n}")], "core.nil");
    }
    g.extern_decl("v_eff_i32", &["core.i32".to_string()], "core.i32");
    g.line(1, "func.func @main() -> core.nil {");
    g.budget = 1 << 30;
    let mut sc: Scope = vec![];
    for t in [Ty::I1, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::F32, Ty::F64] {
        for k in 0..3 {
            let kv = g.int_const(2, Ty::I32, (k * 5 + scalar_name(t).len() as i64) % 16);
            let v = g.fresh();
            let n = scalar_name(t);
            let l = format!("{v} = func.call {kv} {{callee = @v_in_{n}}} : core.{n}");
            g.line(2, &l);
            sc.push((v, t));
        }
    }
    for _ in 0..70 {
        let n = sc.len();
        g.arith_stmt(&mut sc, 2);
        let new: Vec<(String, Ty)> = sc[n..].to_vec();
        for (v, t) in new {
            g.observe(&mut sc, 2, &v, t, 0);
        }
        // keep the operands close to the raw inputs
        if sc.len() > 60 {
            sc.drain(21..40);
        }
    }
    g.ret(&mut sc, 2, None);
    g.line(1, "}");
    g.line(0, "}");
    std::mem::take(&mut g.out)
}

/// Input table for the host functions: boundary values of every width plus noise.
pub fn inputs(rng: &mut Rng) -> Vec<u64> {
    let pool: [u64; 28] = [
        0, 1, 2, 3, 5, 7, 8, 15, 31, 100, 127, 128, 255, 32767, 65535, 0x7fffffff, 0x80000000, 0xffffffff,
        0xfffffffe, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX, u64::MAX - 1,
        0x3ff0000000000000, 0x4008000000000000, 0xbff8000000000000, 0x3f80000040490fdb, 0x40490fdb,
    ];
    (0..16)
        .map(|_| match rng.below(4) {
            0 => rng.u64(),
            1 => rng.u64() & 0xff,
            _ => *rng.pick(&pool),
        })
        .collect()
}
