MC="model_checking"
CLAIMED={
 "C07":("exhaustive enumeration of operations and inputs on the real constant folders against reference semantics",MC,
   "Every standard operation with a folder: all inputs at widths up to 8 bits, all pairs of boundary values above, all combinations of boundary values of other types, all subsets of known inputs, and constant constructors, compared with semantics written from the specification."),
 "C17":("exhaustive enumeration of operation sequences on the real tables against nested dictionaries",MC,
   "Every sequence of scope and binding operations up to the stated depth over three names on the real tables, with all lookups compared with a stack of dictionaries after every step."),
 "C10":("exhaustive enumeration of programs, passes and inputs on the real passes against a reference interpreter",MC,
   "Every program of the stated families (straight-line, nested, loops, control flow, calls, effects, linear, sums, integers) through each of 19 pass configurations, with results, panics and per-channel effect traces of original and transformed program compared by a reference interpreter on all inputs."),
 "C26":("exhaustive enumeration of programs, passes and entrypoints on the real passes against reference definitions of what each pass promises",MC,
   "Every program of the stated families, with every entrypoint of a kind, through order forcing, edge localisation, dead-function and dead-code removal, inlining and folding; results compared with independent definitions (total order and rank rule, reachability, demand fixpoint, absence of inlinable or foldable operations), each pass run twice."),
 "C09":("exhaustive enumeration of programs, known inputs and executions on the real analysis against a reference interpreter",MC,
   "Every program of the stated families is analysed with every choice of known inputs and executed by a reference interpreter on all consistent inputs; each value on each wire, each executed block, case and loop exit is compared with the claim of the analysis. All triples of a set of abstract values are checked against the lattice laws."),
 "C14":("exhaustive enumeration of regions, node sets and boundaries on the real constructors against the definition of convexity",MC,
   "Every region of the stated families, every set of sibling nodes (and chosen non-siblings), and freely chosen boundaries, through every constructor and checker; acceptance, boundary, signature and node set compared with the definition; extraction and replacement compared as graphs."),
 "C02":("exhaustive enumeration of structural mutations on the real validator against an independent statement of the specification's rules",MC,
   "Hand-made HUGRs of every container and edge kind and all generated programs of the standard families, with every single structural mutation (and every pair on small ones), every container with all short child lists, and every three-block control-flow graph with a cross-block read; the verdict of validate is compared with rules written from the specification."),
 "C12":("exhaustive enumeration of programs, rewrites and inputs on the real rewrites against a reference interpreter",MC,
   "Every program of the stated families, every rewrite request that reports success; the result is validated, executed on all inputs by a reference interpreter and compared with the original, and nodes outside the declared invalidation set are compared field by field."),
 "C13":("exhaustive enumeration of programs and rewrite requests, comparing verify, apply and the HUGR after failure on the real rewrites",MC,
   "Every program of the stated families times every request of every rewrite kind over all its nodes and ports, plus cut, replacement and removed-node requests on hand-made HUGRs; verify and apply must agree, never panic, and a failed rewrite must leave the HUGR equal to the original."),
 "C04":("exhaustive enumeration of packages and configurations on the real writers and readers, compared in a node-independent normal form",MC,
   "Every program of the standard families in five formats; one program with every node kind with every entrypoint, metadata value and position, numbering gap and child order; every type, type parameter and argument, constant, alias, package of modules and packaged extensions of the stated sets; every compression level: store, load, compare, store again."),
 "C05":("exhaustive enumeration of damage to stored envelopes, read by the real readers under a crash and hang supervisor",MC,
   "Every header byte value, every prefix, every byte changed in many ways, every JSON position changed to each of a palette of values, every token of the model text replaced by every other, nesting to great depth, and all pairs of known and declared extension versions: the reader must return a usable package or an error."),
 "C06":("exhaustive fault injection: every placement of one and two deviations in the calls of a stream, on the real readers and writers",MC,
   "Every envelope of the stated set, through every entry point, with every transfer size, every single and every pair of short transfers, interruptions, errors and zero-length writes at every call (pairs: first and last calls), compared with the undisturbed result and with the rule that a fault delivered is a fault reported."),
 "C11":("exhaustive enumeration of control-flow graphs and branch outcomes on the real passes against a reference interpreter, and of abstract graphs against the definition of cycle equivalence",MC,
   "Every control-flow graph of up to three (and, up to renaming, four) blocks with up to two or three successors, with values, rows, linear data, non-local reads, nesting and surrounding effects, through merging, normalising, nesting and outlining of every set of blocks; effects and results compared for every sequence of branch outcomes. Edge classes of every abstract graph of up to five nodes compared with brute force."),
 "C19":("exhaustive enumeration of insertions, links and directives on the real operations against a reference tree-with-ports insertion",MC,
   "Every insertion of a generated source into a generated target at every container and position, whole, by entrypoint, by region, as a subgraph, as a forest with every root placement, and with every assignment of link directives by name and by node; result compared node by node with a reference model, failures compared with the target left unchanged."),
 "C20":("exhaustive enumeration of registry operation sequences, extension lists and packaged/known version combinations on the real registry and resolver against a map model and reference identity",MC,
   "Every sequence of registry operations against a map keeping the newest; every list of interdependent extensions in several versions loaded against several registries; every generated program, type, parameter, constant and alias loaded with the full, the minimal, a copied and every smaller registry: each reference must be the registry's own definition or loading fails."),
 "C23":("exhaustive enumeration of HUGRs, entrypoints, wrappers, edits and queries on the real views against a reference tree with ports",MC,
   "A HUGR with every kind of node and every program of the standard families, every node as entrypoint, through every wrapper: every query, region graph, petgraph adaptor, rendering, module graph and extraction compared with a reference model; every editing operation through every mutable view; every signature map of small regions."),
 "C15":("exhaustive enumeration of types, kinds, contexts and substitutions on the real type system against a kind-directed reference",MC,
   "Every type and type argument to depth two over every context of two variables of sixteen kinds: acceptance by every kind, bound of every part, effect of redeclaring variables, reloading; every polymorphic row with every argument over four target contexts against a reference substitution, and the composition with a second substitution; all ways to write a sum; all ill-kinded argument lists."),
 "C21":("exhaustive enumeration of call graphs and type arguments on the real pass against reference instantiation and a reference interpreter",MC,
   "Every program of the stated families (one to three polymorphic functions calling each other, every type-argument assignment from a list covering all kinds of parameters, function values, effects) through monomorphisation; the instances are compared with reference substitution of the originals, sharing and names with the definition, behaviour with a reference interpreter."),
 "C18":("exhaustive enumeration of commit histories, subsets and insertion orders on the real persistent HUGRs against set-of-links rewriting",MC,
   "Every history of commits up to the stated depth over small base graphs (each commit on every compatible set of earlier ones, every convex set of operations, several replacements); every subset, listing, insertion order and joint addition, with materialisation, all graph queries, refusals and reloads compared with a reference that rewrites a set of links."),
 "C16":("exhaustive enumeration of model trees, token sequences, character strings and damaged bytes on the real printer, parser, resolver, writer and reader against an independent parser and resolver",MC,
   "Every tree of the stated families (names, literals, characters, terms to depth two, regions, scopes, whole packages) printed and parsed, resolved and written to binary, read and turned back into a tree; every short sequence of tokens and characters judged by an independent reader of the grammar; every changed byte of a binary module: what reads must mean the same in all three forms."),
 "C24":("exhaustive enumeration of commands, options, inputs and points at which output fills up, on the real tool and its library interface against the library",MC,
   "Every subcommand with every combination of its options over packages of all kinds in all formats, valid, invalid and damaged (every truncation and bit of two of them), inside the process and as the tool with files and standard streams: success, output and messages compared with the library on the same bytes; sinks that fill up at every length, readers that fail at every length, wrong arguments, every exit code of external subcommands."),
}
