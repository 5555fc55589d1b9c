#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None, na=None, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, na=na, level=level, observe=observe or []))

T = "crates/trunk-ir/src/"
PA = "crates/tribute-passes/src/"
CL = "crates/trunk-ir-cranelift-backend/src/"
WA = "crates/trunk-ir-wasm-backend/src/"
RT = "crates/tribute-runtime/src/"
IR = "crates/tribute-ir/src/"

prop("C01", "Optimisations preserve what a program shows to the outside",
     "For every valid program, every sequence of the compiler's optimisations (constant folding and other simplification, removal of dead operations, removal of unreachable functions, inlining) leaves the program's observable behaviour unchanged: the calls it makes to external functions with their arguments, its result, and whether it traps or keeps running. The program that comes out is again well formed, and every function reachable from an entry point is still there.",
     ["programs", "inputs", "histories"],
     "for all valid IR programs, all argument values, and all sequences and configurations of the optimisation passes",
     "Unit tests check single rewrites on hand-written fragments and never run the program; whether a fold, a removal or an inlining changes behaviour depends on operand values, effects and on which passes ran before.",
     [T+"transforms/canonicalize.rs", T+"transforms/dce.rs", T+"transforms/global_dce.rs", T+"transforms/inline.rs", T+"transforms/call_graph.rs", T+"dialect/arith.rs", T+"op_interface.rs"],
     [("fold and canonicalization patterns", T+"dialect/arith.rs, "+T+"dialect/scf.rs"), ("purity registry", T+"op_interface.rs"), ("reachability from entry points", T+"transforms/global_dce.rs"), ("inline eligibility and region splice", T+"transforms/inline.rs")],
     "differential execution monitor: generated programs run in an independent reference interpreter before and after each random pass sequence, observable event traces compared, structure monitor after every pass",
     "Held on the generated programs, argument vectors and pass sequences that were executed; trusts the reference interpreter's semantics of the arith/scf/cf/func operations.")

prop("C02", "Lowering structured control flow preserves behaviour",
     "For every program built from structured conditionals, loops (including early exit and continue carrying values) and multi-way switches, lowering to basic blocks and branches gives a program with the same observable calls, result and trapping behaviour. No structured control-flow operation is left, and the branch-based program is well formed: every value is defined on all paths before it is used.",
     ["programs", "inputs"],
     "for all nestings of structured operations and all run-time values steering them",
     "The tests look at the shape of a few small lowerings; nested loops with values carried out of inner conditionals, empty branches and region arguments are combinatorial, and the shape alone does not tell whether the values arriving are the right ones.",
     [T+"transforms/scf_to_cf.rs", T+"dialect/scf.rs", T+"dominance.rs"],
     [("block splitting and branch construction", T+"transforms/scf_to_cf.rs")],
     "differential execution monitor over generated nested control flow, with dominance and structure monitors on the lowered program",
     "Held on the programs executed; the two sides are run by the same reference interpreter, which implements structured and branch semantics separately.")

prop("C03", "Native code behaves as the program says",
     "Every program the native backend accepts runs as the program's own semantics prescribe: same external calls in the same order with the same arguments, same result, same traps. This holds for all arithmetic at the edges of every type, comparisons, conversions, calls (direct, indirect, tail), control flow, aggregate data (construction, projection, variant tests and casts), strings and byte constants, and with the compiler's optimisations on or off.",
     ["programs", "inputs", "configurations"],
     "for all programs in the supported operation set, all input values and all optimisation settings",
     "The backend's unit tests compare lowered IR text and check that object code is produced; they never run it, so a wrong condition code, field offset, calling convention or extension is invisible.",
     [CL+"translate.rs", CL+"function.rs", CL+"passes/arith_to_clif.rs", CL+"passes/adt_to_clif.rs", CL+"passes/func_to_clif.rs", CL+"passes/cf_to_clif.rs", CL+"passes/mem_to_clif.rs", T+"adt_layout.rs", PA+"native/const_to_native.rs", PA+"native/adt_rc_header.rs", PA+"native/tribute_rt_to_clif.rs", PA+"native/intrinsic_to_native.rs", PA+"boxing.rs"],
     [("lowering passes to the machine dialect", CL+"passes"), ("translation to machine code", CL+"function.rs"), ("data layout", T+"adt_layout.rs")],
     "differential execution monitor: the object code the backend emits is linked and run, its event trace compared with an independent reference interpreter's",
     "Held on the executed programs on x86-64 Linux; trusts the reference interpreter, the linker and the machine.")

prop("C04", "Native memory management never frees what the program still uses",
     "A natively compiled program never touches memory it has released, never releases an object twice, never writes outside an object and never follows a stale reference, whatever reference-counting policy (plain, owned parameters, return-aware, interprocedural ownership, with and without the redundant-pair optimisation) it is compiled with. The policy never changes what the program shows to the outside, and straight-line programs give back, under every policy, the same objects; those that allocate only boxed scalars give back all of them.",
     ["programs", "configurations", "histories"],
     "for all programs, all reference-counting policies, and all points of their execution",
     "Tests compare inserted retain/release operations on small examples; whether counts balance along every executed path of a program with joins, loops, tail calls, shared structure and several policies shows only when the program runs on a monitored heap.",
     [PA+"native/rc_insertion.rs", PA+"native/ownership_summary.rs", PA+"native/rc_optimization.rs", PA+"native/rc_lowering.rs", PA+"native/rtti.rs", PA+"native/adt_rc_header.rs", "crates/tribute-rc/src/lib.rs", RT+"lib.rs"],
     [("retain/release insertion", PA+"native/rc_insertion.rs"), ("interprocedural ownership", PA+"native/ownership_summary.rs"), ("retain/release pair removal", PA+"native/rc_optimization.rs"), ("count update and deep release", PA+"native/rc_lowering.rs, "+PA+"native/rtti.rs")],
     "memory-safety monitor: compiled programs run on a guard-page allocator that traps use after free, double free, out-of-bounds and size mismatches, and the code with its retain/release operations executed on a counting shadow heap; trace and reclamation compared across policies",
     "Held on the executed programs under all policy combinations. Released pages are never reused, so any access to a freed object is caught; leaks are judged only in the program classes where the code reclaims everything.")

prop("C05", "IR text is a faithful serialisation",
     "Printing any well-formed IR module and parsing the text back gives a structurally identical module: the same operations in the same order with the same operands, results, result types, block argument types, successors, regions, attributes and types (source locations and argument names are not part of the text). Printing a module without nested modules, parsing it and printing again gives the same text. Type aliases in the text change only the spelling, never the types meant.",
     ["inputs", "programs"],
     "for all modules over all attribute and type forms, strings, symbols, numbers, nested regions and blocks",
     "Tests round-trip a few fixed modules; escaping, number extremes, aliasing thresholds and nesting interact, and a lossy corner silently corrupts a program that goes through text.",
     [T+"printer.rs", T+"parser/raw.rs", T+"parser/builder.rs", T+"types.rs", T+"location.rs"],
     [("printer", T+"printer.rs"), ("parser", T+"parser/raw.rs"), ("module builder", T+"parser/builder.rs")],
     "round-trip monitor: canonical structural dump of API-built and compiler-produced modules compared before printing and after parsing",
     "Held on the generated modules. Outside the text format and not generated: empty blocks and regions, values referenced before their textual definition, attributes on modules other than the name. Non-finite float constants and attributes of closure literals are known findings.")

prop("C06", "The IR parser is total",
     "On every input text the IR parser returns either a well-formed module or an error whose position lies inside the text; it never panics, never aborts, never loops, and never produces a module with dangling or undefined references. Parsing is a pure function of the text.",
     ["inputs"],
     "for all texts, in particular truncated, spliced, bit-flipped and deeply repeated ones",
     "Tests cover a dozen hand-picked malformed inputs; the input space near valid programs is unbounded.",
     [T+"parser/raw.rs", T+"parser/builder.rs", T+"parser/mod.rs"],
     [("grammar", T+"parser/raw.rs"), ("name resolution", T+"parser/builder.rs")],
     "mutation fuzzing of valid programs under panic, hang and structure monitors",
     "Held on the mutated texts tried.")

prop("C07", "Edits keep the IR graph consistent",
     "After every history of IR edits (create, insert, move, split, replace uses, replace operations, clone, erase) the two directions of every relation agree: each value's recorded uses are exactly the operand positions that read it, each operation lies in exactly the block that lists it, each block in the region that lists it. A clone is isomorphic to its original and shares nothing with it but what it references from outside (definitions precede their uses in the order cloned), and an erase that would leave dangling uses is refused.",
     ["histories"],
     "for all finite sequences of edits",
     "Tests exercise one or two edits; a missed use-list update shows only after a later edit reads the stale entry.",
     [T+"context.rs", T+"ir_mapping.rs", T+"rewrite/helpers.rs"],
     [("use lists", T+"context.rs"), ("cloning", T+"ir_mapping.rs")],
     "model-based history monitor: random edit histories against a simple independent graph model, full cross-check after every step",
     "Held on the executed histories.")

prop("C08", "Validation accepts well-formed IR and rejects broken IR",
     "The IR validators report nothing on a well-formed module, and report an error on every module in which a value is used outside the scope (function or isolated operation) that defines it, the use bookkeeping differs in either direction from the operands actually read, or an operation breaks its own registered rule (a comparison predicate that does not exist, a conditional without its two yielding branches, a loop with several results, a switch with results, an indirect tail call without its callee); a direct call with the wrong number of arguments or results is reported as well. They never modify the module. The dominance analysis other passes rely on is exactly path domination from the entry block: a dominates b iff every path from the entry to b passes through a.",
     ["programs", "inputs"],
     "for all modules and all single corruptions of them, and all control-flow graphs",
     "Tests hold one example per diagnostic; a validator that overlooks a defect in nested regions or unreachable blocks lets miscompiled code pass silently.",
     [T+"validation.rs", T+"dominance.rs", T+"op_interface.rs"],
     [("validators", T+"validation.rs"), ("dominator computation", T+"dominance.rs")],
     "reference-model monitor: verdicts on valid and systematically corrupted modules, dominance compared with a reachability definition",
     "Held on the modules, corruption kinds and graphs tried.")

prop("C09", "Pattern rewriting reaches a consistent fixpoint",
     "Applying a set of rewrite patterns applies them until none matches any more or reports that it stopped early, reports a change exactly when the module changed, and leaves a consistent module in which every use of a replaced value refers to its replacement. Dialect conversion succeeds exactly when no operation the target calls illegal remains, and block arguments and results whose types are converted keep their uses, connected by casts only where types differ.",
     ["programs", "histories", "configurations"],
     "for all modules, pattern sets and conversion targets",
     "Tests use one pattern on one operation; ordering, nesting, chains of replacements and patterns that erase or create blocks are not sampled.",
     [T+"rewrite/applicator.rs", T+"rewrite/rewriter.rs", T+"rewrite/conversion_target.rs", T+"rewrite/signature_conversion.rs", T+"rewrite/type_converter.rs", T+"conversion/resolve_unrealized_casts.rs"],
     [("worklist driver", T+"rewrite/applicator.rs"), ("legality", T+"rewrite/conversion_target.rs")],
     "model-based monitor: random pattern sets and conversion targets applied to random modules, outcome compared with an abstract term-rewriting model",
     "Held on the modules and pattern sets tried.")

prop("C10", "Pass pipelines run what was asked, in order, and stop at failure",
     "A pass pipeline runs each registered pass exactly once per matching operation, in the registered order; a nested pipeline visits exactly the operations of its kind in the enclosing target (itself included) that still exist when their turn comes, in program order, and operations that an earlier pass erased or changed into another kind are not visited. The first failing pass stops everything after it and is reported with its name. After every pass the innermost instrumentation hook and then the innermost verifier see that pass and target, and a verifier's objection is reported against the pass after which it was raised. Cached analyses are computed once and then returned until something invalidates them.",
     ["histories", "configurations", "fault_sequences"],
     "for all pipeline trees, module shapes and failing passes",
     "Tests build one or two small pipelines; the product of nesting, module shape, failure point and instrumentation is not sampled.",
     [T+"pass.rs", T+"analysis.rs"],
     [("pass manager", T+"pass.rs"), ("analysis cache", T+"analysis.rs")],
     "trace checker: recorded pass, instrumentation and verifier events compared with the sequence an independent model predicts, with random failures, erasures and retagging injected",
     "Held on the pipeline trees and failure points tried.")

prop("C11", "WebAssembly output is valid and behaves as the program says",
     "Every program the WebAssembly backend accepts yields a binary that passes validation and, when run, makes the same external calls with the same arguments, returns the same result and traps exactly when the program's own semantics say so, independent of the optimisation settings.",
     ["programs", "inputs", "configurations"],
     "for all programs in the supported operation set and all input values",
     "Tests look for substrings in lowered IR or check that emission succeeds; no emitted binary is executed.",
     [WA+"emit.rs", WA+"passes/arith_to_wasm.rs", WA+"passes/scf_to_wasm.rs", WA+"passes/adt_to_wasm.rs", WA+"passes/func_to_wasm.rs", WA+"passes/wasm_gc_to_wasm.rs", WA+"gc_types.rs", PA+"wasm/lower.rs", PA+"wasm/const_to_wasm.rs", PA+"wasm/tribute_rt_to_wasm.rs", PA+"wasm/type_converter.rs"],
     [("lowering passes", WA+"passes"), ("binary emission", WA+"emit")],
     "differential execution monitor: emitted binaries validated and run in a WasmGC engine, event traces compared with the reference interpreter",
     "Held on the executed programs; trusts the reference interpreter and the WebAssembly engine.")

prop("C12", "Effect handlers keep their meaning down to native code",
     "In a compiled program every ability operation reaches the innermost handler for its ability that encloses it, with its own arguments. Resuming continues the computation exactly where it performed the operation, with the given answer, as often as the handler resumes it; a handler that does not resume abandons the computation up to its own handle and no further; a computation that finishes normally passes once through its handler's completion arm. The program's external calls are those the effect semantics prescribes, whether operations answer in place or capture their continuation, whether they are performed directly, through calls or through closures, whatever values the computation captured, and under every inlining and reference-counting setting, and no released object is touched.",
     ["programs", "inputs", "configurations"],
     "for all nestings of handlers, abilities, operations and resumption styles",
     "Tests inspect lowered IR of single handlers; dynamic scoping across nesting, shadowing and calls shows only in execution.",
     [PA+"tail_resumptive.rs", PA+"resolve_evidence.rs", PA+"lower_ability_perform.rs", PA+"lower_handle_dispatch.rs", PA+"lower_closure_lambda.rs", PA+"closure_lower.rs", PA+"native/evidence.rs", PA+"evidence.rs", RT+"lib.rs"],
     [("evidence passing", PA+"resolve_evidence.rs"), ("handler dispatch", PA+"lower_handle_dispatch.rs"), ("operation lowering", PA+"lower_ability_perform.rs")],
     "differential execution monitor: compiled programs run next to the real runtime on a guarded heap, host-call traces compared with a reference evaluator of effect handlers",
     "Held on the executed programs; trusts the reference evaluator and the harness's transcription of the front end's lowering.")

prop("C13", "Data layout is sound",
     "For every struct and enum type the computed native layout places the fields in declaration order at naturally aligned offsets inside the object, by the documented size table after type conversion; no two fields of a struct or of one variant, nor a field and the tag, overlap; the total size covers every variant and is padded to the alignment; variants are numbered in declaration order and found by name. In compiled programs every field of every object reads back the value last written to it, and no write reaches outside its object.",
     ["inputs", "programs"],
     "for all field lists and variant lists and all values stored",
     "Tests compute a few example layouts and never store through them.",
     [T+"adt_layout.rs", CL+"passes/adt_to_clif.rs", PA+"native/adt_rc_header.rs", PA+"native/rtti.rs"],
     [("layout computation", T+"adt_layout.rs"), ("field access", CL+"passes/adt_to_clif.rs"), ("object allocation", PA+"native/adt_rc_header.rs")],
     "invariant monitor over computed layouts of generated types, and execution of generated object programs on a guarded heap against a reference interpreter",
     "Held on the generated types and programs.")

prop("C14", "The runtime library is memory-safe and correct under threads",
     "The native runtime's allocation, handler-evidence and thread-state primitives are free of undefined behaviour and data races on any number of threads: live allocations are aligned and disjoint and keep their contents, a request that cannot be met ends the program; evidence extension never changes an existing evidence and lookup always gives the innermost extension for an ability with exactly the values it was extended with; tags drawn on a thread are never repeated; concurrent first use is safe and a thread's state is released when it ends. In address-checking mode correct programs run unchanged, freed memory stays poisoned in a bounded quarantine, and a changed byte next to an object or a second free is reported and ends the program.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "for all call histories on any number of threads",
     "The runtime's tests are single-threaded and check a few sequences without a sanitizer.",
     [RT+"lib.rs", RT+"tls.rs", RT+"asan.rs"],
     [("evidence vectors", RT+"lib.rs"), ("allocator", RT+"lib.rs"), ("thread-local state", RT+"tls.rs"), ("checking allocator", RT+"asan.rs")],
     "ThreadSanitizer, Miri and a guarded allocator over random multi-threaded histories, with an offline model checker over the recorded event logs",
     "Held on the histories and interleavings observed.")

prop("C15", "Runtime byte and text operations and IO are exact",
     "Byte-sequence length, indexing, slicing, concatenation and comparison and the printing and line-reading primitives give exactly the result the arguments define for every input including empty, embedded-NUL and large ones, and out-of-range indexes end the program; a slice keeps the buffer it shares alive; reading lines loses, duplicates and reorders no byte, never reads on when a whole line is available, strips exactly the line ending, and reports end of file, invalid encoding and system errors as such; writing delivers every byte exactly once and in order under short and interrupted writes, and at most a prefix when the stream fails.",
     ["inputs", "fault_sequences"],
     "for all byte strings, stream chunkings and IO faults",
     "Tests use short in-memory strings and never inject short reads, short writes or errors into the real calls.",
     [RT+"lib.rs", PA+"native/io.rs", PA+"io_lowering.rs"],
     [("byte and IO primitives", RT+"lib.rs")],
     "fault injection into system calls, guarded buffers and Miri, with an offline checker of the recorded calls against byte-string and stream models",
     "Held on the inputs and fault plans tried.")

prop("C16", "Interning is injective and thread-safe",
     "Interned symbols, types and paths compare equal exactly when their contents are equal, order and hash as their contents do, and always give back the contents they were made from, also when many threads intern and look up the same and different contents at once; a lookup finds whatever was interned before it and never interns; fresh block ids are never repeated; attribute dictionaries behave as maps keyed by text, whatever order they were filled in.",
     ["schedules", "inputs", "histories"],
     "for all contents and all interleavings",
     "Tests intern a few strings on one thread.",
     [T+"symbol.rs", T+"types.rs", T+"context.rs", T+"location.rs"],
     [("symbol interner", T+"symbol.rs"), ("type and path interners, attribute maps", T+"types.rs")],
     "offline linearizability and map-model checker over recorded concurrent interning histories",
     "Held on the histories observed.")

prop("C17", "Compilation is deterministic",
     "Compiling the same program gives the same bytes (IR text after every stage, native object, WebAssembly binary) on every run, in every process, whatever was compiled before in the same process.",
     ["programs", "histories", "configurations"],
     "for all programs and compilation histories",
     "A unit test runs once; nondeterminism from hash order or leftover global state shows only when comparing runs.",
     ["crates/tribute-passes/src", "crates/trunk-ir/src/transforms", "crates/trunk-ir-wasm-backend/src", "crates/trunk-ir-cranelift-backend/src"],
     [("ordered collections in passes and emitters", PA)],
     "differential replay: repeated compilations in several processes with different histories, hashes compared",
     "Held on the programs and histories compared.")

prop("C18", "Closures capture and call what the source says",
     "In natively compiled programs a closure, however it is passed, returned, nested, stored in a record, sent through a generic function or called (with or without handler evidence in scope), computes with the values its captured variables had when it was created and calls its own body with exactly the arguments given; a named function used as a value behaves like a call of that function. This holds with and without inlining.",
     ["programs", "inputs"],
     "for all higher-order programs and inputs",
     "Tests check the lowered shape of single closures; which capture ends up in which environment slot and which hidden argument goes where shows only when nested and mixed closures run.",
     [PA+"closure_lower.rs", PA+"lower_closure_lambda.rs", PA+"resolve_evidence.rs", PA+"evidence.rs", IR+"dialect/closure.rs"],
     [("closure conversion", PA+"closure_lower.rs"), ("lambda lifting", PA+"lower_closure_lambda.rs"), ("hidden evidence arguments", PA+"resolve_evidence.rs")],
     "differential execution monitor: generated higher-order programs evaluated by a reference with lexical environments and run as compiled native code, event traces compared",
     "Held on the executed programs. Objects are never given back in these runs, so this property is independent of reference counting; WebAssembly is excluded because the WebAssembly route rejects most programs with function values at this commit.")

prop("C19", "Nothing unlowered slips into a backend",
     "The boundary check in front of each backend (native, WebAssembly) accepts the modules the compiler lowers from programs on plain values, and rejects every module in which, anywhere in it, there is an operation of another dialect, a result, block argument, parameter or callable signature of a type the target has no values of, a type foreign to the target nested in an attribute or a type alias, the private control-carrier name, an invalid calling convention, a continuation-passing function with a result, or a tail transfer with a result. The error names the offending operation, type or name. The check never changes the module, and a backend produces no code from a module with a foreign operation left in it.",
     ["programs"],
     "for all lowered modules and all positions and nestings of a residue",
     "Tests place one residue at one position of a two-line module.",
     [PA+"backend_ready.rs", CL+"validation.rs", CL+"translate.rs", WA+"validation.rs", WA+"translate.rs"],
     [("boundary verification", PA+"backend_ready.rs"), ("operation legality", CL+"validation.rs, "+WA+"validation.rs")],
     "fault injection into compiler-lowered modules with a verdict monitor on the real boundary checks and emitters",
     "Held on the modules and injected residues tried.")

prop("C20", "Source-level control converts to CPS with its meaning, or not at all",
     "A module whose source-level control operations (functions, lambdas, calls, performs, handlers with completions and arms, resumptions) follow the documented rules is converted to continuation-passing form: no source control operation or type is left, the result is well formed, and running it shows the same observable events as the direct-style program: operations reach the innermost handler of their ability, arms get the arguments in order and either resume (the computation then continues with that value under the same handlers) or abandon it, the completion sees the handled value, conditionals and captured values are kept, and functions answer in place where the operation is a function. Each resumption can be used once: a second use at run time is refused. A module that breaks one rule (wrong number, order or type of arguments, unknown operation or function, wrong kind of arm or perform, duplicate arm or function, resumption used twice on a path, outside its arm or let out of it, wrong captures, effects under too weak a calling convention, a missing terminator, a stray attribute) is refused with an error and left exactly as it was. (Programs in which a resumption has to continue more than the rest of the innermost handler body or function it was performed in are recorded known findings.)",
     ["programs", "inputs"],
     "for all modules of source-level control operations, all inputs, and all single corruptions of such modules",
     "Tests compare the converted text of single constructs and hold one example per rule; none runs the converted program or combines handlers, branches, captures and resumptions.",
     [IR+"dialect/tribute_control.rs", PA+"tribute_control_to_cps.rs"],
     [("operation verifiers", IR+"dialect/tribute_control.rs"), ("conversion", PA+"tribute_control_to_cps.rs")],
     "differential execution: a direct-style reference machine against an evaluator of the converted IR with a one-shot monitor on resumptions; fault injection with a verdict and atomicity monitor",
     "Held on the programs, inputs and corruptions tried; known findings replayed by the witness stage.")

prop("C30", "The front end gives every source text one meaning or a located error",
     "Parsing, name resolution, type inference and lowering of any source text end with a program or with diagnostics that point into the text, never with a crash, and inferred types are principal.",
     ["inputs", "programs"], "for all source texts", "Tests compile a few examples.",
     ["crates/tribute-front/src", "src"], [("parser and type checker", "crates/tribute-front/src")],
     na="The front end needs a tree-sitter grammar crate that is not available offline: neither the root package nor tribute-front can be built in this sandbox, so no execution of it can be monitored.")
prop("C31", "The language server's answers match the current text",
     "After any sequence of edits, diagnostics, hover, definition and completion answers describe the text as it now is.",
     ["histories"], "for all edit histories", "Tests send single requests.",
     ["src"], [("language server", "src")],
     na="Depends on the front end, which cannot be built in this sandbox (see C30); there is no execution to monitor.")

CLAIMED = os.environ.get("CLAIMED", open(os.path.join(here, "tools", "claimed")).read()).split()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], hook_needed=None))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="No hooks in /repo are needed: the checks drive public interfaces, emitted object code and binaries, and the runtime library.")
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                                technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "No check has been built for it yet."))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
