//! Replica of the pass orchestration in /repo/src/pipeline.rs (that crate needs
//! dependencies that are not available offline), over the real passes.
use tribute_passes::generic_type_converter;
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::{IrContext, Module};
use trunk_ir_cranelift_backend::passes::{
    adt_to_clif, arith_to_clif, cf_to_clif, func_to_clif, mem_to_clif,
};
use trunk_ir_cranelift_backend::{RodataEntry, emit_module_to_native};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NativeOpts {
    pub paired: bool,
    pub borrowed: bool,
    pub temporary: bool,
    pub sanitize: bool,
}

impl NativeOpts {
    pub const PRODUCTION: NativeOpts =
        NativeOpts { paired: true, borrowed: true, temporary: true, sanitize: false };
    pub const BASELINE: NativeOpts =
        NativeOpts { paired: false, borrowed: false, temporary: false, sanitize: false };
    pub fn from_bits(b: u32) -> Self {
        NativeOpts { paired: b & 1 != 0, borrowed: b & 2 != 0, temporary: b & 4 != 0, sanitize: b & 8 != 0 }
    }
}

pub fn module_of(ctx: &IrContext, op: trunk_ir::OpRef) -> Module {
    Module::new(ctx, op).expect("not a module")
}

fn add_verifier(pm: &mut PassManager) {
    pm.with_verifier(|ctx, op| {
        let mut op = op;
        let module = loop {
            if let Some(m) = Module::new(ctx, op) {
                break m;
            }
            let Some(b) = ctx.op(op).parent_block else { return Ok(()) };
            let Some(r) = ctx.block(b).parent_region else { return Ok(()) };
            let Some(o) = ctx.region(r).parent_op else { return Ok(()) };
            op = o;
        };
        let result = trunk_ir::validation::validate_use_chains(ctx, module);
        if result.is_ok() {
            Ok(())
        } else {
            Err(trunk_ir::pass::VerifyError {
                message: format!("use-chain: {:?}", result.errors.first().map(|e| e.to_string())),
            })
        }
    });
}

pub fn shared(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|e| format!("{e:?}"))?;
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::lower_closure_lambda::LowerClosureLambda)
        .add_pass(tribute_passes::intrinsic_to_arith::LowerIntrinsicToArith)
        .add_pass(tribute_passes::list_intrinsics::LowerListIntrinsics)
        .add_pass(tribute_passes::io_lowering::LowerIoIntrinsics)
        .add_pass(tribute_passes::closure_lower::PrepareClosureLowering);
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::closure_lower::LowerClosuresInFunc);
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;

    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::lower_ability_perform::LowerAbilityPerform)
        .add_pass(tribute_passes::tail_resumptive::ConvertTailResumptive);
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;

    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::resolve_evidence::ResolveEvidenceDispatch);
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;

    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::lower_handle_dispatch::LowerHandleDispatch);
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;
    Ok(())
}

pub fn cleanup(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, m);
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|e| format!("{e:?}"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(trunk_ir::transforms::canonicalize_pass())
        .add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::DceConfig::default()));
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;
    let tc = generic_type_converter(ctx);
    resolve_unrealized_casts(ctx, m, &tc);
    Ok(())
}

thread_local! {
    static INLINE: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

/// Whether function inlining is part of the pipelines run by this thread.
pub fn set_inline(on: bool) {
    INLINE.with(|i| i.set(on));
}

pub fn inline(ctx: &mut IrContext, m: Module) {
    if !INLINE.with(|i| i.get()) || std::env::var_os("VH_NOINLINE").is_some() {
        return;
    }
    trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, analyses| {
        trunk_ir::transforms::inline::inline_functions(ctx, m, analyses);
    });
}

pub fn abi(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    if tribute_passes::target_abi::has_root_entry_contract(ctx, m) {
        tribute_passes::target_abi::lower_cps_signatures_to_physical(ctx, m)
            .map_err(|e| e.to_string())?;
        tribute_passes::target_abi::compose_root_entry_bridge(ctx, m).map_err(|e| e.to_string())?;
    }
    Ok(())
}

pub fn native_target(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    inline(ctx, m);
    abi(ctx, m)?;
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|e| format!("{e:?}"))?;
    tribute_passes::native::evidence::prepare_native_evidence_runtime(ctx, m);
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::native::evidence::LowerEvidenceToNative);
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;
    cleanup(ctx, m)
}

/// Down to the point where retain/release insertion starts.
pub fn native_to_rc(
    ctx: &mut IrContext,
    module: Module,
    o: NativeOpts,
) -> Result<(Vec<RodataEntry>, tribute_passes::native::ownership_summary::TrustedOwnershipSummaries), String> {
    use tribute_passes::native as n;
    let es = |e: trunk_ir::rewrite::ConversionError| e.to_string();
    n::entrypoint::generate_native_entrypoint(ctx, module, o.sanitize);
    let consts = n::const_to_native::analyze_consts(ctx, module);
    n::const_to_native::lower(ctx, module, &consts).map_err(es)?;
    n::intrinsic_to_native::lower(ctx, module).map_err(es)?;
    n::io::lower(ctx, module).map_err(es)?;
    n::list::lower(ctx, module).map_err(es)?;
    let cm = core_dialect::Module::from_op(ctx, module.op()).map_err(|e| format!("{e:?}"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
    add_verifier(&mut pm);
    pm.run(ctx, cm).map_err(|e| e.to_string())?;

    let (tc, _) = n::type_converter::native_type_converter(ctx);
    let summaries =
        n::ownership_summary::compute_and_attach(ctx, module, &tc).map_err(|e| e.to_string())?;
    func_to_clif::lower(ctx, module, tc).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    cf_to_clif::lower(ctx, module, tc).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    let rtti = n::rtti::generate_rtti(ctx, module, &tc);
    n::adt_rc_header::lower(ctx, module, tc, &rtti.type_to_idx).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    adt_to_clif::lower(ctx, module, tc).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    arith_to_clif::lower(ctx, module, tc).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    mem_to_clif::lower(ctx, module, tc).map_err(es)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    n::tribute_rt_to_clif::lower(ctx, module, tc).map_err(es)?;
    let ro = consts
        .rodata
        .iter()
        .map(|(sym, data)| RodataEntry { symbol: *sym, data: data.clone() })
        .collect();
    Ok((ro, summaries))
}

pub fn native_rc(
    ctx: &mut IrContext,
    module: Module,
    o: NativeOpts,
    summaries: &tribute_passes::native::ownership_summary::TrustedOwnershipSummaries,
) -> Result<(), String> {
    use tribute_passes::native as n;
    let bp = if o.borrowed {
        n::rc_insertion::BorrowedParameterPolicy::ElideProvenBorrowed
    } else {
        n::rc_insertion::BorrowedParameterPolicy::Preserve
    };
    let tb = if o.temporary {
        n::rc_insertion::TemporaryBorrowPolicy::ElideProvenFieldBorrows
    } else {
        n::rc_insertion::TemporaryBorrowPolicy::Preserve
    };
    if std::env::var_os("VH_DUMP0").is_some() {
        eprintln!("{}", trunk_ir::printer::print_module(ctx, module.op()));
    }
    n::rc_insertion::insert_rc_with_policies_and_trusted_summaries(ctx, module, bp, tb, summaries)
        .map_err(|e| e.to_string())?;
    if o.paired {
        n::rc_optimization::eliminate_paired_rc(ctx, module);
    }
    Ok(())
}

pub fn native_prepare(ctx: &mut IrContext, module: Module, o: NativeOpts) -> Result<Vec<RodataEntry>, String> {
    use tribute_passes::native as n;
    let (ro, summaries) = native_to_rc(ctx, module, o)?;
    native_rc(ctx, module, o, &summaries)?;
    let (tc, _) = n::type_converter::native_type_converter(ctx);
    let r = resolve_unrealized_casts(ctx, module, &tc);
    if !r.unresolved.is_empty() {
        let d: Vec<String> = r
            .unresolved
            .iter()
            .map(|c| {
                let (f, t) = (ctx.types.get(c.from_type), ctx.types.get(c.to_type));
                format!("{}.{} -> {}.{}", f.dialect, f.name, t.dialect, t.name)
            })
            .collect();
        return Err(format!("unresolved casts: {}", d.join(", ")));
    }
    if std::env::var_os("VH_DUMP").is_some() {
        eprintln!("{}", trunk_ir::printer::print_module(ctx, module.op()));
    }
    n::rc_lowering::lower_rc(ctx, module);
    Ok(ro)
}

/// post-shared IR -> native object bytes
/// Before closure conversion every function value is a closure; programs that use plain code
/// pointers are already past the shared stage.
pub fn raw_function_values(ctx: &IrContext, op: trunk_ir::OpRef) -> bool {
    let d = ctx.op(op);
    if d.dialect == trunk_ir::Symbol::new("func")
        && (d.name == trunk_ir::Symbol::new("call_indirect") || d.name == trunk_ir::Symbol::new("constant"))
    {
        return true;
    }
    d.regions.iter().any(|r| {
        ctx.region(*r).blocks.iter().any(|b| ctx.block(*b).ops.iter().any(|o| raw_function_values(ctx, *o)))
    })
}

pub fn native_object(ctx: &mut IrContext, m: Module, o: NativeOpts) -> Result<Vec<u8>, String> {
    if !raw_function_values(ctx, m.op()) {
        shared(ctx, m)?;
    }
    native_late(ctx, m, o)
}

/// What follows the shared stage, down to an object file.
pub fn native_late(ctx: &mut IrContext, m: Module, o: NativeOpts) -> Result<Vec<u8>, String> {
    native_target(ctx, m)?;
    let ro = native_prepare(ctx, m, o)?;
    emit_module_to_native(ctx, m, &ro).map_err(|e| e.to_string())
}

/// post-shared IR -> wasm bytes
pub fn wasm_binary(ctx: &mut IrContext, m: Module) -> Result<Vec<u8>, String> {
    if !raw_function_values(ctx, m.op()) {
        shared(ctx, m)?;
    }
    wasm_late(ctx, m)
}

/// What follows the shared stage, down to a WebAssembly binary.
pub fn wasm_late(ctx: &mut IrContext, m: Module) -> Result<Vec<u8>, String> {
    inline(ctx, m);
    abi(ctx, m)?;
    cleanup(ctx, m)?;
    wasm_backend(ctx, m)
}

/// The same without emission.
pub fn wasm_prepare(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    inline(ctx, m);
    abi(ctx, m)?;
    cleanup(ctx, m)?;
    wasm_lowered(ctx, m)
}

pub fn wasm_backend(ctx: &mut IrContext, m: Module) -> Result<Vec<u8>, String> {
    wasm_lowered(ctx, m)?;
    trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m)
        .map(|b| b.bytes.to_vec())
        .map_err(|e| e.to_string())
}

fn wasm_lowered(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| e.to_string())?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        let d: Vec<String> = r
            .unresolved
            .iter()
            .map(|c| {
                let (f, t) = (ctx.types.get(c.from_type), ctx.types.get(c.to_type));
                format!("{}.{} -> {}.{}", f.dialect, f.name, t.dialect, t.name)
            })
            .collect();
        return Err(format!("unresolved casts: {}", d.join(", ")));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| e.to_string())
}
