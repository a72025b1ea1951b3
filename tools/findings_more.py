FIXED += [
("C10","fix: signature of the block that replaces a call of a polymorphic function","inlining a call of a polymorphic function left the block with the uninstantiated signature: invalid HUGR"),
("C10","fix: order and non-local edges when inlining a dataflow block","inlining a DFG made order edges across regions, lost required order edges and lost orderings through the block"),
("C10","fix: dataflow analysis of calls of external functions","constant folding treated results of calls of FuncDecls as unreachable: wrong results"),
("C10","fix: localise edges inside loops, blocks and across control flow","localising edges crashed on loops and blocks with reads of their own inputs, non-local loop predicates and dominator edges"),
("C10","fix: untuple with unused elements, several regions and mixed users","untuple crashed when an element was unused, tuples in several regions, or tuple users interleaved"),
("C26","fix: localising edges into a loop whose control value is from outside the entrypoint","localising edges crashed when a loop's control value came from outside the entrypoint"),
("C10","fix: values provided for a function's inputs are values of the wires","constant folding substituted the arguments of an internal call into a function that can also be called from outside"),
]
OPEN += [
("C10","untuple-panic:order-edge","untuple crashes on tuple operations that have order edges (an existing test requires the panic)"),
]
FIXED += [
("C09","fix: order partial sums of dataflow values by their components","the partial order of abstract sums compared variants wrongly, so join and meet disagreed with the order"),
("C09","fix: meet of partial sums reports a change only when there is one","meet of partial sums reported changes that did not happen"),
("C09","fix: dataflow values of a function loaded at different type arguments differ","a function loaded at different type arguments was one abstract value, so a conditional on it was misreported"),
("C09","fix: equal partial sums hash alike","equal partial sums hashed differently"),
("C09","fix: reachability queries answer only for analysed nodes","blocks and cases outside the analysed region were reported unreachable"),
("C14","fix: the subgraph within a boundary follows every link of a port","nodes reached only through a further link of a boundary node's port were left out"),
("C14","fix: sibling subgraphs without boundary edges, or outside dataflow regions, are checked","node sets with no boundary edges, or in a control-flow graph or module, were accepted unchecked"),
("C14","fix: subgraphs from nodes with several order predecessors","panic for nodes with several incoming order edges"),
("C14","fix: subgraphs from line intervals are checked like those from nodes","non-convex or cross-region sets were accepted from line intervals"),
("C14","fix: subgraph outputs that copy a linear port are rejected","an output boundary repeating a linear port was accepted"),
("C14","fix: subgraph inputs that mix calls with values, or repeat a call, are rejected","panic on a boundary mixing call and value ports"),
("C14","fix: all nodes given for a subgraph must be siblings","nodes of several regions were accepted when the first ones were siblings"),
("C14","fix: copying a subgraph includes the contents of its containers","extracting a subgraph with containers left their contents out"),
("C14","fix: dataflow subgraph of a region whose output reads an outer value","panic when an output of the region reads a value from outside it"),
]
OPEN += [
("C14","line-checker:several-order-predecessors","the line convexity checker panics when a node of the region has several incoming order edges (the topological sort of the portgraph dependency marks a port visited at its first link)"),
]
FIXED += [
("C12","fix: inlining a recursive call within its own function","inlining a call of the enclosing function copied the function while it was being changed"),
("C12","fix: inlining a dataflow block also invalidates its Input and Output","removed Input and Output nodes were not declared as invalidated"),
("C12","fix: outlining rejects exit blocks, and values used by other blocks","outlining accepted exit blocks, and blocks whose values other blocks read: invalid HUGR or panic"),
("C13","fix: removing a LoadConstant with order edges","panic, or removal of a node others are ordered after"),
("C13","fix: implement verification of identity insertion","verify was unimplemented (panic)"),
("C13","fix: cuts are verified before they are inserted","bad cut requests panicked or left the HUGR changed after an error"),
("C13","fix: replacements are verified before they are applied, including repeated and unreachable nodes and edges","replacements accepted by verify panicked or failed half-way"),
("C13","fix: the entrypoint can be moved among its siblings","outlining an entry block that is the entrypoint panicked"),
("C02","fix: validation rejects several functions connected to the same call","a call connected to two functions was accepted"),
("C02","fix: validation checks the type variables in type arguments of calls","undeclared type variables in phantom type arguments were accepted"),
("C02","fix: validation reports missing or misplaced children instead of panicking","validate panicked on a region with one child, a conditional with a non-case child, a constant wired to a block"),
("C02","fix: validation requires the root to be a module","a HUGR with another operation at the root was accepted"),
]

FIXED += [
("C04","fix: the model text format accepts the variable names that export gives","no program with a polymorphic symbol could be read back from the text format"),
("C04","fix: parse function constants in the model text format as they are printed","text with a function constant was rejected by the parser"),
("C04","fix: print float literals of the model text format with a decimal point","floats such as 1e300 were printed in a form that reads back as a symbol"),
("C04","fix: resolve the types of extensions packaged in the model text format","loading text with packaged extensions that use each other's types panicked"),
("C04","fix: export of function values uses the links of their own graph","storing a function value in the model formats panicked, or wired it like the outer graph"),
]
OPEN += [
("C04","model-function-value","constants that are functions are exported to the model formats but the importer does not support them (documented as unsupported), so the package cannot be loaded"),
("C04","model-nat-bound","the model has no bounded natural numbers: the upper bound of a BoundedNat type parameter is lost in the model formats"),
("C04","model-nested-copyable","the copyable bound of a runtime type nested in a list or tuple type parameter is lost in the model formats"),
("C04","model-alias-bound","the bound of an alias declaration is not exported to the model formats and comes back as copyable"),
("C04","text-float-literal","infinite float literals have no form in the model text grammar and cannot be read back"),
("C04","json-float-argument","infinite float type arguments are written as null in JSON and cannot be read back"),
("C04","json-function-value-extension","a function value in JSON is read with only the standard extensions, so one using any other extension cannot be loaded"),
]

FIXED += [
("C05","fix: parse nested lists and out of range literals of the model text format","reading nested lists of the text format took exponential time; large literals panicked"),
("C05","fix: reject cyclic or too deeply nested models","a cyclic or deeply nested model overflowed the stack (abort)"),
("C05","fix: check the extension versions of an envelope after resolving its modules","envelopes declaring incompatible extension versions were accepted"),
("C05","fix: check integer constants when reading them","integer constants of impossible width were read and panicked when used"),
("C05","fix: report malformed models on import instead of panicking","importing models with too many links, bad order hints, tags, constants, static references or self-typed variables panicked or overflowed the stack"),
("C05","fix: report malformed HUGR JSON instead of panicking","JSON with missing nodes, parents, ports or an invalid tag panicked"),
("C06","fix: storing an envelope finishes compression and flushes before it succeeds","write errors at the end of a compressed envelope were lost, and the writer was not flushed"),
("C06","fix: retry interrupted reads of the binary model format","an interrupted read made loading a binary model fail"),
]
OPEN += [
("C05","model-text-cut-between-forms","the model text format has no end marker: text that is cut off between two top-level forms is read as a smaller package"),
("C05","storing export.rs: duplicate symbol: DuplicateSymbolError","a HUGR with two aliases of the same name is read from JSON and validates, but storing it in a model format panics"),
]

FIXED += [
("C11","fix: edge classes compare the topmost bracket","edges that are not cycle equivalent were put in one class when brackets had been replaced in between"),
("C11","fix: nesting control-flow graphs with self-loops, parallel edges or shared blocks","nesting panicked on self-loops, parallel edges, graphs that never exit, exit-free loops shared between regions and values used outside a region"),
("C11","fix: order the effects of merged blocks that pass no values","effects of merged blocks lost their order when no values passed between the blocks"),
("C11","fix: keep the users of a normalised CFG whose number of outputs shrinks","normalising lost the users of results when the last block has fewer inputs than the graph has results"),
("C11","fix: order edges for non-local values of merged or moved blocks","normalising left non-local values without the order edges they require, or moved a block reading values of other blocks out of the graph"),
]

FIXED += [
("C05","fix: report malformed links of an exit block on import","the error of a malformed exit block link was ignored on import"),
("C19","fix: insert forest nodes without a parent as documented instead of panicking","inserting a forest with a root that has no parent panicked"),
("C19","fix: insert linked module children and forests in hierarchy order","the order of inserted siblings depended on hash order"),
("C19","fix: link HUGRs whose entrypoint is the module root or is not inserted","linking HUGRs whose entrypoint is the module root panicked"),
("C19","fix: refuse to replace nodes that contain the insertion point or the entrypoint","directives replacing the insertion point or entrypoint panicked after inserting"),
("C20","fix: resolve the extensions of alias definitions","types in alias definitions were not resolved and their extensions not reported"),
("C20","fix: resolve loaded extensions to the version that the registry keeps","with several versions of an extension, loaded definitions referred to a version (or a dropped copy) that the registry does not keep"),
("C20","fix: do not panic when loading operations that use missing types","loading an operation whose signature uses a type that the known version lacks panicked"),
("C20","fix: validate the signatures of operations without a custom validator","registry validation skipped plain polymorphic signatures"),
("C23","fix: bound the node indices of petgraph adaptors by the largest index","node_bound of the petgraph adaptor was the number of nodes, which is too small when nodes have been removed"),
("C23","fix: keep type parameters and order edges when changing the signature of a region","map_function_type dropped type parameters and order edges (or refused regions that have them), extend_inputs turned order edges into value edges"),
]
OPEN += [("C23","dot-rerooted-highlight","dot_string of a re-rooted view highlights the entrypoint of the HUGR below instead of the entrypoint of the view")]

FIXED += [
("C15","fix: substitute row variables by spliced lists and list variables","instantiating a row variable with a list variable or concatenated list panicked"),
("C15","fix: substituting in a tuple type gives a tuple type","substituting in the kind of a tuple turned it into the kind of a list"),
("C15","fix: make the subtyping of terms reflexive","variables of constant kinds did not fit their own kind"),
("C15","fix: check the parts of concatenated lists against the type of the list","concatenated lists were checked against the kind of their elements: well-kinded ones refused, ill-kinded ones accepted"),
]
OPEN += [("C15","list-of-lists-starting-with-variable","a list of lists of types whose first element is a list variable is substituted as if it were a list of types (the lists are spliced): the representation is ambiguous")]
FIXED += [
("C21","fix: monomorphize programs that use declarations or unusual type arguments","calls of polymorphic declarations and byte, float, static or concatenated type arguments made the pass panic"),
("C18","fix: follow persistent wires whose ends were deleted together","queries on a persistent HUGR panicked after replacing two connected nodes when the wire between them is also read elsewhere"),
("C18","fix: add commits to persistent HUGRs after their ancestors","a refused addition could leave two commits that delete the same node in the persistent HUGR"),
("C18","fix: refuse persistent replacements whose parent commits are absent","try_add_replacement silently added absent parent commits instead of the documented error"),
]
OPEN += [
("C18","cyclic-combination","two commits that delete different nodes can together make a cycle; the combination is accepted and materialising it panics"),
("C18","state-space-renumbered","a stored state space refers to nodes by number, but storing a HUGR renumbers its nodes unless they are numbered in storage order: after reloading the commits refer to other nodes (panic or a different HUGR)"),
]

FIXED += [
("C16","fix: read words of the model text whole, and all of the text","the text parser split words (trueish, param1 ...) into keywords and rests, and ignored text after the last form it understood"),
("C16","fix: print modules and the symbol _ of the model so that they can be read","printed modules and symbols named _ could not be parsed"),
("C16","fix: keep zero and negative zero apart in the model","0.0 and -0.0 were merged into one term"),
("C04","fix: keep zero and negative zero apart in the model","a program with constants 0.0 and -0.0 was read back with one of them for both"),
("C16","fix: variables without a parameter in binary models have no tree","a binary model with a variable out of range made the conversion to a tree panic"),
("C16","fix: read the constraints of aliases in binary models","constraints of aliases were written and not read"),
("C24","fix: convert --compress compresses without a compression level too","convert --compress without --compression-level wrote an uncompressed envelope"),
("C24","fix: describe --json reports that the end of its output is not written","describe --json exited 0 when the last line of its output could not be written"),
("C24","fix: the tool resolves what the extensions given to it refer to","packages using extensions given by --extensions that refer to types (their own or each other's) made the tool panic"),
]
