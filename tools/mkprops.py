#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the list below.
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))

p("C01","Graph edits act exactly like edits of an ordered tree with ports",
 "After any sequence of public graph edits (adding, removing and moving nodes, connecting and disconnecting ports, changing operations, ports, metadata and the entrypoint, inserting or extracting other graphs, compacting node ids), every query on a HUGR gives the answer of a plain ordered tree with port-to-port links and per-node metadata on which the same edits were made. In particular each edit changes only what it names: ordering of siblings, links, operations and metadata of all other nodes survive, and nothing of a removed node reappears on a later one.",
 ["histories"],"every sequence of edits up to the depth bound over a small alphabet of nodes, ports and metadata keys, from several start graphs",
 "Unit tests exercise single calls in fixed graphs; id reuse, metadata and order effects only show after particular multi-step histories.",
 ["hugr-core/src/hugr.rs","hugr-core/src/hugr/hugrmut.rs","hugr-core/src/hugr/internal.rs","hugr-core/src/hugr/views.rs"],
 [("HugrMut on Hugr","hugr-core/src/hugr/hugrmut.rs"),("node allocation and canonicalisation","hugr-core/src/hugr.rs")],
 [("graph/hierarchy/op_types/metadata","four parallel maps that must describe the same nodes","hugr-core/src/hugr.rs struct Hugr")],["HugrView queries after each edit"])
p("C02","Validation accepts exactly the HUGRs the specification allows",
 "Validating a HUGR succeeds if and only if the HUGR meets the specification's structural rules: hierarchy and child kinds, port connection counts, edge types and linearity, acyclic sibling dataflow, locality of non-local edges (including the required order edge and dominance in control-flow graphs), well-formed control-flow and conditional signatures, and well-typed constants. It never crashes on any structure that can be built through the public API.",
 ["programs"],"all small programs from the bounded generator, and every single structural mutation of each of them",
 "Tests check hand-picked good and bad graphs; acceptance of every other malformed shape, and acceptance of every legal shape, is unbounded.",
 ["hugr-core/src/hugr/validate.rs","hugr-core/src/ops/validate.rs","specification/hugr.md"],
 [("Hugr::validate","hugr-core/src/hugr/validate.rs"),("per-op child validity flags","hugr-core/src/ops/validate.rs")])
p("C03","Builders only finish graphs that are valid and wired as requested",
 "Whatever sequence of builder calls is made, each call either returns an error or records exactly the requested nodes and wires, and a successful finish yields a HUGR that validates, has the declared signature, and connects each operation input to the wire that was given. Non-local wires, repeated uses of copyable values and nested regions get the order edges the specification demands, and reusing a linear wire or passing wrongly typed, missing or out-of-scope wires is reported as an error rather than a panic or a bad graph.",
 ["histories"],"every sequence of builder calls up to the depth bound for dataflow, conditional, loop, control-flow and module builders with every choice of existing wires, including ill-typed ones",
 "Tests follow intended usage; misuse combinations and wiring across nesting levels are sampled at a handful of points.",
 ["hugr-core/src/builder.rs","hugr-core/src/builder/build_traits.rs","hugr-core/src/builder/cfg.rs","hugr-core/src/builder/conditional.rs","hugr-core/src/builder/tail_loop.rs","hugr-core/src/builder/dataflow.rs","hugr-core/src/builder/circuit.rs"],
 [("wire_up","hugr-core/src/builder/build_traits.rs")])
p("C04","Every storage format returns the HUGR that was stored",
 "Storing a valid package in any envelope format, with or without compression and at any level, and loading it again yields the same package: the same modules up to renumbering of nodes, with the same hierarchy order, operations, types, constants, links, order edges, entrypoint, metadata and packaged extensions. In the model formats constants are compared at their loads, and metadata is kept for the nodes the model has (not for constants, region inputs and outputs, or exit blocks). Storing a reloaded package again and again yields the same bytes.",
 ["programs","configurations"],"all small programs from the bounded generator times every format and compression setting",
 "Round-trip tests cover chosen HUGRs in chosen formats; node renumbering, gaps after deletions, order edges, metadata and unusual types interact with each format separately.",
 ["hugr-core/src/envelope.rs","hugr-core/src/envelope/package_json.rs","hugr-core/src/envelope/reader.rs","hugr-core/src/envelope/writer.rs","hugr-core/src/hugr/serialize.rs","hugr-core/src/export.rs","hugr-core/src/import.rs","hugr-core/src/package.rs"],
 [("JSON","hugr-core/src/hugr/serialize.rs"),("model export/import","hugr-core/src/export.rs, import.rs")])
p("C05","Damaged envelopes are reported, never crash, never read as garbage",
 "Reading an envelope from arbitrary bytes returns either a package or an error and never panics, hangs or allocates without bound. Any prefix of a valid envelope is rejected unless it still encodes the same package, a wrong magic number, unknown format, unknown flag or incompatible extension version is always rejected, and any package that is returned can be queried, validated and stored again without crashing.",
 ["inputs"],"every truncation, every single-byte change and every single-field change of the structured payload, of small envelopes in every format",
 "Tests feed a few malformed headers; damage at every other offset or field is not sampled.",
 ["hugr-core/src/envelope/header.rs","hugr-core/src/envelope/reader.rs","hugr-core/src/hugr/serialize.rs","hugr-core/src/import.rs","hugr-model/src/v0/binary/read.rs","hugr-model/src/v0/ast/parse.rs","hugr-model/src/v0/ast/resolve.rs"],
 [("EnvelopeHeader::read","hugr-core/src/envelope/header.rs"),("deserialisation checks","hugr-core/src/hugr/serialize.rs")])
p("C06","Envelope I/O is independent of how the stream delivers bytes and faults",
 "Reading gives the same result however the underlying reader splits its data, and writing produces the same bytes however the underlying writer splits its input, with interruptions retried. If the stream reports an error at any point of reading or writing then the operation reports failure, and storing never reports success unless every byte of a loadable envelope was accepted and flushed to the writer.",
 ["fault_sequences"],"every position of one or two deviations (short transfer, interruption, hard error, zero-length write, flush failure) in the call sequence of each format and compression setting",
 "Tests only use in-memory buffers that never split, fail or fill up.",
 ["hugr-core/src/envelope/writer.rs","hugr-core/src/envelope/reader.rs","hugr-core/src/envelope/package_json.rs","hugr-core/src/package.rs","hugr-model/src/v0/binary/write.rs","hugr-model/src/v0/binary/read.rs"],
 [("write_envelope","hugr-core/src/envelope/writer.rs"),("EnvelopeReader","hugr-core/src/envelope/reader.rs")])
p("C07","Constant folding of standard operations equals their specification",
 "Whenever an operation of the standard libraries (integer, float, conversion, logic, prelude, collection) is folded on known inputs, the constants produced are exactly the values the specification assigns to that operation at that width and signedness, they have the operation's declared output types, and cases the specification makes fail or leaves partial are folded to the specified error value or not folded. Constant integers, sizes and floats can only be constructed inside their type's range.",
 ["inputs"],"every operation at every width with all input values (small widths) or all boundary values (large widths), and every subset of known inputs",
 "Folding tests sample a few values per operation; sign, width and overflow corners are combinatorial.",
 ["hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs","hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs","hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs","hugr-core/src/std_extensions/logic.rs","hugr-core/src/std_extensions/arithmetic/int_types.rs","hugr-core/src/std_extensions/collections/list/list_fold.rs","hugr-core/src/extension/prelude.rs","specification/hugr.md"],
 [("ConstFold implementations","hugr-core/src/std_extensions")])
p("C08","Compiled code computes what the HUGR specifies",
 "A program lowered to LLVM and executed returns the value, or raises the panic, that the HUGR specification assigns to it, for integer, float, conversion, logic, tuple and sum operations, for conditionals, loops, control-flow graphs, calls and function values, and for all array operations including borrowing. Lowering a valid program over the supported extensions does not fail.",
 ["programs","inputs"],"every operation at every width on exhaustive (small) or boundary (large) operands, and all small control-flow and collection programs from the bounded generator",
 "Execution tests run each operation on a few values and few program shapes.",
 ["hugr-llvm/src/emit","hugr-llvm/src/extension","hugr-llvm/src/sum.rs","hugr-llvm/src/sum/layout.rs"],
 [("int lowering","hugr-llvm/src/extension/int.rs"),("control flow","hugr-llvm/src/emit/ops.rs, emit/ops/cfg.rs"),("arrays","hugr-llvm/src/extension/collections")])
p("C09","Dataflow analysis never claims something execution contradicts",
 "For every program and every execution of it that is consistent with the supplied inputs, each value that flows along a wire is one that the analysis result for that wire allows, no executed case, block or loop is reported unreachable, and loops reported to never continue or never break do so. The abstract values form a lattice whose join and meet are commutative, associative, idempotent and consistent with the order.",
 ["programs"],"all small programs from the bounded generator with every combination of known and unknown inputs, compared with all concrete executions; all pairs and triples of small abstract values",
 "Tests assert results on single examples; soundness is a statement about all programs and all executions.",
 ["hugr-passes/src/dataflow/datalog.rs","hugr-passes/src/dataflow/partial_value.rs","hugr-passes/src/dataflow/results.rs","hugr-passes/src/dataflow/value_row.rs"],
 [("datalog rules","hugr-passes/src/dataflow/datalog.rs"),("lattice","hugr-passes/src/dataflow/partial_value.rs")])
p("C10","Optimisation passes preserve meaning and validity of programs",
 "Running constant folding, dead-code elimination, dataflow-block inlining, function inlining, untupling, dead-function removal, edge localisation or order forcing (alone or composed) on a valid program leaves a valid program with the same entrypoint signature, the same public functions, and the same observable behaviour: equal results, panics and side-effect order for every input. None of them turns a terminating program into a non-terminating or failing one, and none crashes.",
 ["programs"],"all small programs from the bounded generator, each pass, all small inputs, compared by interpretation before and after",
 "Pass tests check expected shapes of selected programs; they do not execute programs and cannot cover interactions of nesting, order edges, side effects and loops.",
 ["hugr-passes/src/const_fold.rs","hugr-passes/src/dead_code.rs","hugr-passes/src/inline_dfgs.rs","hugr-passes/src/inline_funcs.rs","hugr-passes/src/untuple.rs","hugr-passes/src/dead_funcs.rs","hugr-passes/src/non_local.rs","hugr-passes/src/non_local/localize.rs","hugr-passes/src/force_order.rs"],
 [("ComposablePass implementations","hugr-passes/src")])
p("C11","Control-flow restructuring preserves behaviour on every graph shape",
 "Normalising a control-flow graph, merging its blocks, or nesting and outlining single-entry single-exit regions leaves a valid program which performs the same sequence of block effects and returns the same values for every choice of branch outcomes. Normalisation leaves no mergeable pair of blocks, and nesting only groups regions that have one entry and one exit edge.",
 ["programs"],"all control-flow graphs up to the block bound (every successor assignment, multi-edges, self loops and unreachable exits included) and all branch-outcome sequences up to the step bound",
 "Tests use a few named shapes (diamond, loop); the space of small graphs has thousands of shapes.",
 ["hugr-passes/src/normalize_cfgs.rs","hugr-passes/src/nest_cfgs.rs","hugr-core/src/hugr/patch/outline_cfg.rs"],
 [("normalize_cfg","hugr-passes/src/normalize_cfgs.rs"),("EdgeClassifier / nest_sese_region","hugr-passes/src/nest_cfgs.rs"),("OutlineCfg","hugr-core/src/hugr/patch/outline_cfg.rs")])
p("C12","Rewrites that apply preserve validity and meaning",
 "Every rewrite that reports success on a valid HUGR (inlining a dataflow block or call, peeling a loop, inserting an identity or an identity cut, removing unused constants, replacing a region by an equivalent one) leaves a valid HUGR with unchanged observable behaviour for every input. It returns exactly the node correspondence it documents and leaves every node outside its declared invalidation set with the same operation and neighbours except where the rewrite reconnects it.",
 ["programs"],"all small programs from the bounded generator, every applicable rewrite site in each, all small inputs",
 "Rewrite tests use isolated sites; order edges, non-local edges, permuted and duplicated boundary wires appear only in combination.",
 ["hugr-core/src/hugr/patch/inline_dfg.rs","hugr-core/src/hugr/patch/inline_call.rs","hugr-core/src/hugr/patch/peel_loop.rs","hugr-core/src/hugr/patch/insert_identity.rs","hugr-core/src/hugr/patch/insert_cut.rs","hugr-core/src/hugr/patch/consts.rs","hugr-core/src/hugr/patch/simple_replace.rs","hugr-core/src/hugr/patch/replace.rs"],
 [("PatchHugrMut implementations","hugr-core/src/hugr/patch")])
p("C13","A rewrite's check predicts its outcome, and failure changes nothing",
 "For every rewrite request that names nodes of a valid HUGR (or absent nodes, for rewrites whose errors cover them), however ill-chosen those nodes, the ports, edges or replacement, checking and applying it never panic, checking succeeds exactly when applying does and otherwise both give the same error, and a rewrite that promises to leave the HUGR unchanged on failure does so.",
 ["programs","inputs"],"every small program times every request whose parameters range over all its nodes and ports (and a removed node where an error is documented), for every rewrite kind",
 "Tests try one or two bad requests per rewrite; the request space is combinatorial.",
 ["hugr-core/src/hugr/patch.rs","hugr-core/src/hugr/patch/replace.rs","hugr-core/src/hugr/patch/simple_replace.rs","hugr-core/src/hugr/patch/insert_identity.rs","hugr-core/src/hugr/patch/insert_cut.rs","hugr-core/src/hugr/patch/consts.rs","hugr-core/src/hugr/patch/outline_cfg.rs"],
 [("verify / apply_hugr_mut","hugr-core/src/hugr/patch")])
p("C14","Sibling subgraphs are accepted exactly when convex, and replace faithfully",
 "Building a subgraph from a set of sibling nodes succeeds if and only if the set is non-empty, lies in one dataflow region and is convex there, under every convexity checker alike, and its boundary, signature and node set are those of the definition. Extracting it or replacing it with an identical copy gives an equivalent region, and replacing it by any region of the same signature rewires each boundary port to its counterpart.",
 ["programs","inputs"],"all small dataflow regions (all wirings and order edges up to the node bound) and every subset of their nodes",
 "Tests pick a few subgraphs in a few circuits; convexity and boundary order depend on the whole graph.",
 ["hugr-core/src/hugr/views/sibling_subgraph.rs","hugr-core/src/hugr/views/sibling_subgraph/convex.rs","hugr-core/src/hugr/patch/simple_replace.rs"],
 [("SiblingSubgraph::try_from_nodes","hugr-core/src/hugr/views/sibling_subgraph.rs")])
p("C15","Types, kinds and substitution obey the type system's laws",
 "Instantiating polymorphic signatures is ordinary capture-free substitution: it commutes with composition of substitutions, with serialization and with row-variable expansion, and it yields well-kinded types or an error whenever arguments do not match parameters. A type is reported copyable exactly when all its parts are copyable, type arguments are accepted exactly when they inhabit the parameter's kind, and sum types with equal variants are equal however they were written.",
 ["inputs"],"all types, type arguments and parameters up to the size bound, and all substitutions between small contexts",
 "Tests check selected instantiations; laws over all pairs of types and substitutions are not sampled.",
 ["hugr-core/src/types.rs","hugr-core/src/types/type_param.rs","hugr-core/src/types/poly_func.rs","hugr-core/src/types/signature.rs","hugr-core/src/types/type_row.rs","hugr-core/src/types/row_var.rs"],
 [("Substitution / substitute","hugr-core/src/types"),("check_term_type","hugr-core/src/types/type_param.rs")])
p("C16","The model language's text, tree and binary forms agree",
 "For every model module, printing and parsing, writing and reading binary, and resolving to and from the table form give back the same module, so all three forms carry the same information. Text or bytes that do not denote a module are rejected with an error and never a crash.",
 ["inputs"],"all small terms, nodes, regions, symbols, literals and strings (including every character class) up to the size bound; every single-token deletion, duplication or replacement of small texts",
 "Snapshot tests fix a dozen files; escapes, literals and nesting combine without limit.",
 ["hugr-model/src/v0/ast/parse.rs","hugr-model/src/v0/ast/print.rs","hugr-model/src/v0/ast/resolve.rs","hugr-model/src/v0/ast/view.rs","hugr-model/src/v0/binary/read.rs","hugr-model/src/v0/binary/write.rs","hugr-model/src/v0/table/mod.rs"],
 [("parser/printer","hugr-model/src/v0/ast"),("capnp codec","hugr-model/src/v0/binary")])
p("C17","Scoped name tables behave like nested dictionaries",
 "The symbol, link and variable tables used to resolve names behave, for every sequence of entering scopes, leaving scopes, inserting and resolving names, exactly like a stack of dictionaries with the documented shadowing, isolation and duplicate rules, and return to their previous state when a scope is left.",
 ["histories"],"every operation sequence up to the depth bound over two or three names and all scope nestings (explicit-state exploration with state deduplication)",
 "Tests are doc examples; leaks between scopes need particular histories.",
 ["hugr-model/src/v0/scope/symbol.rs","hugr-model/src/v0/scope/link.rs","hugr-model/src/v0/scope/vars.rs"],
 [("SymbolTable, LinkTable, VarTable","hugr-model/src/v0/scope")],
 [("scope stack","open scopes and shadowed bindings","hugr-model/src/v0/scope")])
p("C18","Persistent HUGRs equal sequential rewriting in any order",
 "A persistent HUGR made of any compatible set of commits that replace operations directly within the entrypoint's region by flat graphs materialises, independently of the order in which commits were added or merged, to the HUGR obtained by applying the same replacements one after the other, and all its graph queries agree with that materialisation. Combining commits succeeds exactly when no two of them (or of their ancestors) delete the same node, a refused addition leaves a valid combination, a replacement whose parent commits are absent is refused, and serialising a state space and reloading it changes nothing.",
 ["histories"],"every commit history up to the depth bound over overlapping and stacked replacements of small base graphs, and every subset and insertion order of its commits",
 "Tests build a few four-commit state spaces; order independence and conflict detection range over all histories.",
 ["hugr-persistent/src/persistent_hugr.rs","hugr-persistent/src/state_space.rs","hugr-persistent/src/commit.rs","hugr-persistent/src/trait_impls.rs","hugr-persistent/src/walker.rs","hugr-persistent/src/parents_view.rs","hugr-persistent/src/commit/boundary.rs"],
 [("PersistentHugr::try_new / to_hugr","hugr-persistent/src/persistent_hugr.rs")])
p("C19","Inserting one HUGR into another keeps exactly what was requested",
 "Inserting a HUGR or a selected set of its functions and entrypoint region into another creates one node for every node that had to be copied and none else, with the same relative hierarchy order, operations, metadata and links, reports that correspondence, and connects each used function either to its inserted copy or to the chosen existing function. Existing content is unchanged apart from the requested additions and replacements, and an impossible request is an error that leaves what was in the target unchanged.",
 ["programs","configurations"],"all small pairs of modules (call chains, recursion, declarations, constants, shared statics) and every assignment of a directive to each static node",
 "Tests cover single directives; combinations of directives and reference chains are exponential.",
 ["hugr-core/src/hugr/linking.rs","hugr-core/src/hugr/hugrmut.rs"],
 [("insert_link_hugr_by_node etc.","hugr-core/src/hugr/linking.rs"),("insert_forest","hugr-core/src/hugr/hugrmut.rs")])
p("C20","Extension registries resolve independently of order, keeping the newest",
 "A registry built from the same extensions by any sequence of additions, updates and merges ends with the same content: one entry per name, of the newest version offered where updating was requested, and a refused addition changes nothing. Loading extensions and programs against a registry resolves every type and operation reference to that registry's definitions whatever the order, fails exactly when a needed extension or definition is missing, and reports exactly the extensions a program uses.",
 ["histories","configurations"],"every sequence of registrations up to the depth bound over names and versions, every load order of mutually referring extensions, and every missing-extension subset",
 "Tests register in one order; resolution depends on order, versions and mutual references.",
 ["hugr-core/src/extension.rs","hugr-core/src/extension/resolution.rs","hugr-core/src/extension/resolution/extension.rs","hugr-core/src/extension/resolution/ops.rs","hugr-core/src/extension/resolution/types.rs","hugr-core/src/extension/resolution/weak_registry.rs"],
 [("ExtensionRegistry","hugr-core/src/extension.rs"),("resolution","hugr-core/src/extension/resolution")])
p("C21","Monomorphisation yields one correct instance per used type",
 "Monomorphising a program whose entry is monomorphic removes every use of a polymorphic function that has a body from the monomorphic part of the program (calls of declarations stay as they are) and leaves a valid program in which each call goes to an instance of the function it named, instantiated at the type arguments it gave, with equal instances shared and different ones distinct, and the same observable behaviour. Instances at different type arguments have different names.",
 ["programs"],"all small call graphs of polymorphic functions (nested, recursive, function values) with all type-argument assignments from a small set (types of one extension, no recursion at growing types)",
 "Tests cover two call chains; sharing and nesting of instantiations is combinatorial.",
 ["hugr-passes/src/monomorphize.rs"],[("mono_scan / instantiate","hugr-passes/src/monomorphize.rs")])
p("C22","Type replacement and lowering rewrite everything and keep meaning",
 "Replacing types and operations throughout a program, lowering operations to given HUGRs, and linearising collections leave a valid program in which no replaced type or operation remains anywhere (signatures, nested types, constants, type arguments), each replaced operation computes its replacement, and every copy or discard that the new types forbid has become exactly one explicit duplication or deletion. Programs not mentioning the replaced things are unchanged.",
 ["programs"],"all small programs over an extension with replaceable types placed in every type position, with every fan-out (0, 1, 2, 3 uses) across nesting levels",
 "Tests check a few positions; types occur at unboundedly many positions and fan-outs.",
 ["hugr-passes/src/replace_types.rs","hugr-passes/src/replace_types/linearize.rs","hugr-passes/src/replace_types/handlers.rs","hugr-passes/src/lower.rs","hugr-passes/src/linearize_array.rs"],
 [("ReplaceTypes","hugr-passes/src/replace_types.rs"),("Linearizer","hugr-passes/src/replace_types/linearize.rs")])
p("C23","All views of a HUGR describe the same graph",
 "Every way to look at a HUGR (entrypoint-restricted iteration, re-rooted and root-checked views, neighbour and port queries, region and petgraph adaptors, module graph, extraction, rendering) agrees with the definition of the underlying hierarchy and links, for every choice of entrypoint. Edits through a mutable view act on the underlying HUGR as the same edits made directly.",
 ["programs"],"all small programs from the bounded generator, every node as entrypoint or region root, and every query",
 "Tests query a few nodes of a few graphs through each view.",
 ["hugr-core/src/hugr/views.rs","hugr-core/src/hugr/views/rerooted.rs","hugr-core/src/hugr/views/root_checked.rs","hugr-core/src/hugr/views/root_checked/dfg.rs","hugr-core/src/hugr/views/petgraph.rs","hugr-core/src/hugr/views/render.rs","hugr-core/src/hugr/internal.rs","hugr-core/src/module_graph.rs"],
 [("HugrView / HugrInternals","hugr-core/src/hugr")])
p("C24","The command line tool is a faithful, honest front end",
 "For every input file, validate, convert, describe and mermaid exit zero exactly when the corresponding library operation succeeds and otherwise exit non-zero with a message and no success output; convert's output is the same package in the requested format and compression. The tool never crashes, reports failure when its output cannot be written, and gives the same result for file and standard-stream input.",
 ["inputs","configurations","fault_sequences"],"every subcommand and option combination times a set of valid, invalid and damaged inputs in every format, with output sinks that fill up",
 "CLI tests run a handful of invocations.",
 ["hugr-cli/src/lib.rs","hugr-cli/src/convert.rs","hugr-cli/src/validate.rs","hugr-cli/src/describe.rs","hugr-cli/src/mermaid.rs","hugr-cli/src/hugr_io.rs"],
 [("CliArgs::run_cmd","hugr-cli/src/lib.rs")])
p("C25","Python and Rust agree on HUGRs and their encodings",
 "Any HUGR built with the Python package behaves, under every sequence of graph edits, like an ordered tree with ports, and any program it builds is accepted by the Rust validator and reloads unchanged through every envelope format on either side. Python's envelope reader accepts exactly the headers the Rust one does.",
 ["histories","programs","configurations"],"every Python edit sequence up to the depth bound, all small programs built through the Python builders, every format and compression, every header byte value",
 "Python tests sample graphs; edit histories and cross-language encodings are not enumerated.",
 ["hugr-py/src/hugr/hugr/base.py","hugr-py/src/hugr/hugr/node_port.py","hugr-py/src/hugr/utils.py","hugr-py/src/hugr/envelope.py","hugr-py/src/hugr/package.py","hugr-py/src/hugr/_serialization","hugr-py/src/hugr/build","hugr-py/src/hugr/model","hugr-py/rust/lib.rs"],
 [("Hugr class","hugr-py/src/hugr/hugr/base.py")])
p("C26","Passes establish what they advertise",
 "After forcing an order every region's operations are in one total order that respects existing dependencies and prefers lower ranks; after localising edges no non-local value edge remains; after dead-function removal exactly the functions reachable from the kept ones remain; after dead-code elimination no removable unused operation remains; after inlining no inlinable block or call remains; and after constant folding no operation with foldable known inputs feeds a live result. Running any of these passes a second time changes nothing, except that constant folding may gain from calls it has removed.",
 ["programs"],"all small programs from the bounded generator (with every rank assignment for ordering and every call graph up to the function bound for function removal)",
 "Tests assert the outcome for chosen programs; the advertised postcondition is universal.",
 ["hugr-passes/src/force_order.rs","hugr-passes/src/non_local.rs","hugr-passes/src/dead_funcs.rs","hugr-passes/src/dead_code.rs","hugr-passes/src/inline_dfgs.rs","hugr-passes/src/inline_funcs.rs","hugr-passes/src/const_fold.rs","hugr-core/src/module_graph.rs"],
 [("pass implementations","hugr-passes/src")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
