HOOKS = {"guard": "cfg(spade_verif)", "enable": "RUSTFLAGS='--cfg spade_verif' (set by mc/b.sh)", "source_commits": ["9ad5016"]}
NOT_YET = {}
TECH = ("explicit-state model checking: bounded-exhaustive programs; lockstep exploration of all inputs and "
        "reachable states of the emitted Verilog against a reference model")
TB = "Trusted: the engine's own four-state Verilog parser/simulator and the reference semantics in mc/src/lang.rs. "
prop("P01", "Integer arithmetic is exact",
 """For every pair of equally wide `int` or `uint` operands, `+` and `-` yield the exact mathematical result in one
 more bit, `*` yields the exact product in the sum of the operand widths, `+.`, `-.`, `*.` and unary `-` yield the result
 modulo 2^N in N bits, and `/` and `%` by a power-of-two constant (and comb_div/comb_mod by any non-zero value) truncate
 towards zero. This holds for every width, every operand value and every nesting of operators.""",
 ["programs", "inputs"], "all operators x widths x operand values x operator compositions",
 """The tests compare emitted text for a few fixed programs, or run a few values under a simulator that is not available
 here; sign extension, growth and wrap mistakes show only at particular widths, signs and nestings.""",
 ["spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-compiler/core/ops.spade", "spade-typeinference/src/expression.rs"],
 [("operator lowering and width growth", "spade-hir-lowering/src/lib.rs"), ("statement_declaration / statement_code", "spade-mir/src/codegen/mod.rs")],
 TB + "Exhaustive for widths up to 4 (6 thorough) and all two-level compositions at width 2; corner alphabet for wide operands.")
prop("P02", "Bitwise, boolean, shift and comparison operators are exact",
 """Comparisons, equality (also of tuples, arrays, enums and Option), boolean operators, bitwise operators, shifts and
 reductions compute the documented function of their operands: signed operands compare as signed numbers, unsigned ones as
 unsigned; `<<` and `>>` shift in zeros, `>>>` the top bit, and shifting by the width or more leaves only those.
 This holds for every width and every operand value.""",
 ["programs", "inputs"], "all operators x operand types x values x compositions",
 "Signedness and width of operands in Verilog depend on context; unit tests pin text, not function.",
 ["spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-compiler/core/ops.spade", "spade-compiler/stdlib/ops.spade"],
 [("operator lowering", "spade-hir-lowering/src/lib.rs"), ("binop codegen", "spade-mir/src/codegen/mod.rs")],
 TB + "Exhaustive for widths up to 4 (6 thorough), compound operands up to 6 bits, two-level compositions.")
prop("P03", "Literals denote the number written, or are rejected",
 """An integer literal in decimal, hexadecimal or binary, with or without underscores, sign or a u/i width suffix, and bool
 literals, produce exactly the written value at the inferred width wherever literals may stand (expressions,
 patterns, register resets, array lengths and type arguments); a literal that does not fit its type is rejected. A literal whose type the context determines is accepted if and only if its value is representable and its suffix agrees with that type.""",
 ["programs", "inputs"], "all literals around the representable range of every width up to the bound, in every base and position",
 "Tests cover a handful of literals at a handful of widths; range boundaries move with width, sign and base.",
 ["spade-ast/src/token.rs", "spade-parser/src/lib.rs", "spade-hir-lowering/src/lib.rs", "spade-hir-lowering/src/pattern.rs", "spade-mir/src/codegen/mod.rs"],
 [("literal range check", "spade-hir-lowering/src/lib.rs"), ("Constant codegen", "spade-mir/src/codegen/mod.rs")],
 TB + "Every value within one of the range boundaries for widths 1..8 and boundary values at 31..65, 127..130 bits; all bases.")
prop("P04", "Width and representation conversions keep the value",
 """zext and sext keep the number, trunc keeps the low bits, concat places its first operand in the high bits,
 as_int/as_uint/to_int reinterpret or keep the value as documented, and conversions between numbers, bool, bits, arrays and bytes are mutually inverse
 with the documented bit order. This holds for every source width, target width and value.""",
 ["programs", "inputs"], "all conversions x source and target widths x values x compositions of conversions",
 "The conversion functions are generic in two widths; the tests instantiate each at one or two.",
 ["spade-compiler/stdlib/conv.spade", "spade-compiler/stdlib/num.spade", "spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs"],
 [("intrinsic lowering of zext/sext/trunc/concat", "spade-hir-lowering/src/lib.rs")],
 TB + "All width pairs up to 5 (8 thorough) with all values, incl. zero widths where accepted; compositions of two conversions.")
prop("P05", "Compound values hold what was put in, in the documented layout",
 """Projecting a field of a constructed tuple, struct, array or enum value gives back exactly the constructed
 part, for every nesting of such types; indexing and slicing arrays select the numbered elements. Seen from outside, first fields
 are most significant, array element 0 is least significant, and an enum has its discriminant on top of its payload.""",
 ["programs", "inputs"], "all types up to a size bound x all values x all projection paths",
 "Offsets are computed from nested sizes; a mistake shows only for particular shapes (one-variant enums, one-bit fields, nested arrays).",
 ["spade-mir/src/codegen/mod.rs", "spade-mir/src/types.rs", "spade-mir/src/enum_util.rs", "spade-typeinference/src/mir_type_lowering.rs", "spade-hir-lowering/src/lib.rs"],
 [("ConstructEnum/EnumMember/IndexTuple/IndexArray/RangeIndexArray", "spade-mir/src/codegen/mod.rs")],
 TB + "All types generated from a grammar up to nesting depth 3 and about 10 bits; every value and every path.")
prop("P06", "match and if select the first matching alternative",
 """A match evaluates to the body of the first arm whose pattern (and guard) matches, with every pattern variable bound to the part of
 the value it stands for; `if` and boolean conditions select likewise; `let` patterns bind all their parts. This holds for every nesting of
 tuple, struct, array, enum, integer, bool, wildcard and binding patterns over every value.""",
 ["programs", "inputs"], "all pattern lists up to a bound over small types x all scrutinee values",
 "The order, condition and binding of arms are lowered separately; tests pin a few textual lowerings.",
 ["spade-hir-lowering/src/pattern.rs", "spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-ast-lowering/src/lib.rs"],
 [("pattern condition and binding lowering", "spade-hir-lowering/src/pattern.rs"), ("Match codegen", "spade-mir/src/codegen/mod.rs")],
 TB + "All arm lists (up to 3 arms) from the pattern alphabets of a dozen scrutinee types, each on all values.")
prop("P07", "Match exhaustiveness is decided exactly",
 """A match expression, or a `let` pattern, is accepted if and only if every value of the scrutinee's type is matched by some
 unguarded arm; a missing case is always reported as an error.""",
 ["programs"], "all pattern lists up to a bound over small types",
 "Usefulness splits integer ranges and constructors recursively; tests sample a few dozen matches.",
 ["spade-hir-lowering/src/usefulness.rs", "spade-hir-lowering/src/pattern.rs", "spade-hir-lowering/src/lib.rs"],
 [("is_useful / deconstructed patterns", "spade-hir-lowering/src/usefulness.rs")],
 "The verdict of the real compiler is compared with brute-force enumeration of the scrutinee's values for every pattern list up to the bound.",
 technique="bounded-exhaustive enumeration of matches; explicit enumeration of all scrutinee values as oracle")
prop("P08", "Registers hold, update, reset and initialise as written",
 """At each rising edge of its clock a register takes its reset value if its reset condition holds and the
 value of its expression otherwise, and it keeps its value in between; a register with `initial` starts with that value. This holds for every type, every pattern on the left-hand side, any
 mutual feedback between registers, several clocks, and every input history.""",
 ["programs", "histories"], "register networks up to a bound x all input histories to closure of the reachable state space",
 "Tests compare emitted text; behaviour over a history of inputs, and per-part resets of compound registers, are never executed.",
 ["spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-mir/src/passes", "spade-ast-lowering/src/lib.rs"],
 [("Register lowering", "spade-hir-lowering/src/lib.rs"), ("Register codegen, reset/initial", "spade-mir/src/codegen/mod.rs")],
 TB + "The product of circuit and model is explored breadth first to closure (no depth bound hit) for every program.")
prop("P09", "Memories return the last value written",
 """Reading an address of a clocked memory gives the value most recently written to it by a write port that was
 enabled at a rising clock edge, or its initial value if there was none; addresses not written keep their value. With several enabled writes to one address in
 one cycle the last listed write port wins.""",
 ["programs", "histories"], "memory shapes (element type, depth, ports, initial content) x all histories of writes and reads",
 "Whether a write disturbs another address or is lost depends on the history of accesses.",
 ["spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-compiler/stdlib/mem.spade", "spade-mir/src/eval.rs"],
 [("DeclClockedMemory / read_memory", "spade-mir/src/codegen/mod.rs")],
 TB + "Closure of the reachable states for element types up to 3 bits and depth up to 4, all port counts up to 2 (3 thorough).")
prop("P10", "A pipeline computes its body with the declared delay",
 """The output of a `pipeline(N)` in cycle t equals the value its body, read without stage markers,
 computes from the inputs of cycle t-N; `stage(+k).x`/`stage(-k).x` references give the value of x as of k cycles later or earlier, nested pipelines add their depth, and stall conditions on
 `reg[...]` hold the stages before them. This holds for every pipeline shape and input history.""",
 ["programs", "histories"], "pipeline shapes (depth, where values are defined and used, nested pipelines, stage references, enables) x all input histories",
 "Which register carries which variable through which stage is decided per variable and stage; tests pin text for a few shapes.",
 ["spade-hir-lowering/src/pipelines.rs", "spade-ast-lowering/src/pipelines.rs", "spade-hir-lowering/src/lib.rs"],
 [("pipeline lowering, live variables per stage", "spade-hir-lowering/src/pipelines.rs")],
 TB + "All pipeline shapes from a grammar (depth up to 3, up to 3 variables) explored over all input histories until closure.")
prop("P11", "Pipeline timing errors are always rejected, correct timing accepted",
 """A pipeline is accepted exactly if it contains as many `reg` statements as its declared depth, every stage reference names an existing stage, no value is used before the
 stage in which it becomes available (the depth of an instantiated sub-pipeline included), and the `inst(N)` depth matches the instantiated unit.""",
 ["programs"], "all placements of stage markers, sub-pipelines and uses up to a bound",
 "Tests cover a few hand-picked misplacements.",
 ["spade-hir-lowering/src/pipelines.rs", "spade-ast-lowering/src/pipelines.rs", "spade-typeinference/src/lib.rs"],
 [("availability check", "spade-hir-lowering/src/pipelines.rs"), ("depth check", "spade-ast-lowering/src/pipelines.rs")],
 "Verdict of the real compiler compared with a timing model for every program of the bounded grammar.",
 technique="bounded-exhaustive enumeration of pipeline programs against an explicit timing model")
prop("P12", "Inverted wires carry values backwards, and are driven exactly once",
 """A value `set` on an inverted wire appears unchanged wherever the forward end of the same port is read, through any nesting of ports in
 tuples, structs and arrays and any chain of units. A program is accepted exactly if every inverted part obtained is
 consumed exactly once, where all branches of an `if` or `match` count, since they all exist in the hardware.""",
 ["programs", "inputs"], "port shapes x connection chains x set/consume patterns x inputs",
 "Linear checking is a state machine over field paths; tests cover a few fixed shapes.",
 ["spade-hir-lowering/src/linear_check/mod.rs", "spade-hir-lowering/src/linear_check/linear_state.rs", "spade-mir/src/codegen/mod.rs", "spade-hir-lowering/src/lib.rs"],
 [("linear state", "spade-hir-lowering/src/linear_check/linear_state.rs"), ("backward expression codegen", "spade-mir/src/codegen/mod.rs")],
 TB + "All consume/set programs over port shapes up to 4 inverted leaves; accepted ones simulated on all inputs.")
prop("P13", "Abstraction costs nothing: calls, generics, traits, lambdas mean their bodies",
 """Replacing an expression by a call to a function, entity, method, trait method, generic instance or lambda whose body is that
 expression (arguments positional or named, in any order) never changes what the circuit computes; generic units instantiated at several types or constants in one program each
 behave as if written for that instance.""",
 ["programs", "inputs"], "expressions x ways of abstracting them x instantiation sets x inputs",
 "Monomorphisation keys, argument matching and body replacement interact; a clash needs two particular instances in one program.",
 ["spade-hir-lowering/src/monomorphisation.rs", "spade-hir-lowering/src/inline.rs", "spade-hir-lowering/src/passes/lower_lambda_defs.rs", "spade-ast-lowering/src/lambda.rs", "spade-ast-lowering/src/impls.rs", "spade-typeinference/src/method_resolution.rs"],
 [("MonoState request/dedup", "spade-hir-lowering/src/monomorphisation.rs"), ("lambda lowering", "spade-hir-lowering/src/passes/lower_lambda_defs.rs")],
 TB + "Every program form x expression x instance set up to the bound; all inputs.")
prop("P14", "Optimisation passes never change behaviour",
 """Enabling any subset of the optional MIR passes, on the command line or by attribute, in any order leaves the input/output behaviour of
 every program unchanged, cycle by cycle, including registers and memories.""",
 ["programs", "configurations", "histories"], "programs x all ordered subsets of passes x attribute placement x all input histories",
 "Passes rewrite the netlist; each is tested on a few statements in isolation.",
 ["spade-mir/src/passes", "spade-mir/src/aliasing.rs", "spade-compiler/src/lib.rs"],
 [("auto_clock_gating and other passes", "spade-mir/src/passes")],
 TB + "Every program of the pass corpus x every pass configuration; product reachability to closure.")
prop("P15", "Compilation is independent of scheduling",
 """The result of a compilation (verdict, diagnostics, emitted hardware and item list) does not depend on the number of worker threads or the order in which
 they pick up and finish units: every schedule emits the same set of modules, each exactly once.""",
 ["schedules", "programs"], "all interleavings of the unit-compilation workers at their shared-state operations, up to a preemption bound",
 "A test sees whichever schedule the thread pool happens to take.",
 ["spade-hir-lowering/src/monomorphisation.rs", "spade-compiler/src/lib.rs"],
 [("MonoState queue and translation map", "spade-hir-lowering/src/monomorphisation.rs"), ("rayon scope", "spade-hir-lowering/src/monomorphisation.rs")],
 "The real compiler runs under a controlled scheduler (cfg hook) that enumerates schedules of worker steps.",
 technique="stateless model checking of the real compiler: systematic enumeration of worker schedules", hook="scheduling points in monomorphisation (cfg spade_verif)")
prop("P16", "Every accepted program emits well-formed Verilog",
 """Whenever compilation succeeds the emitted Verilog parses, every referenced name is declared exactly once before use with the width it is used at, every net has exactly
 one driver, and every instantiated module exists with matching ports; names chosen by the user never capture or collide with names
 made by the compiler.""",
 ["programs"], "programs of all the other checks' grammars plus adversarial identifier choices",
 "Tests compare text with expected text; name collisions and zero-width signals need particular identifiers and sizes.",
 ["spade-mir/src/codegen/mod.rs", "spade-mir/src/unit_name.rs", "spade-mir/src/renaming.rs", "spade-hir-lowering/src/name_map.rs", "spade-compiler/src/lib.rs"],
 [("verilog name mangling", "spade-mir/src/renaming.rs"), ("declaration of statements", "spade-mir/src/codegen/mod.rs")],
 TB + "All ordered pairs of identifiers from a collision alphabet in all binding positions; all zero-width forms.")
prop("P17", "Any input text gets a verdict: hardware or a diagnostic, never a crash",
 """For every input text compilation ends, without panicking, in either success with output, or failure with at least one error diagnostic, nothing written, and a failing exit status; every span reported
 lies inside the named source file.""",
 ["inputs"], "all token strings up to a length bound, all single (and pairs of) token deletions, insertions, replacements and truncations of a program corpus",
 "Tests contain mostly well-formed programs and a few hundred chosen errors.",
 ["spade-parser/src/lib.rs", "spade-ast/src/token.rs", "spade-ast-lowering/src/lib.rs", "spade-typeinference/src/lib.rs", "spade-hir-lowering/src/lib.rs", "spade-compiler/src/lib.rs", "spade-diagnostics/src"],
 [("error recovery", "spade-parser/src/lib.rs"), ("diagnostic handler", "spade-diagnostics/src/lib.rs")],
 "Every mutant in the bounded neighbourhood is run through the real compiler in worker processes.",
 technique="bounded-exhaustive enumeration of token strings and program mutants on the real compiler")
prop("P18", "Names resolve lexically and by path",
 """A name refers to the innermost preceding binding in scope (shadowing included), otherwise to the item of its module, an import, or the prelude; paths with lib, self, super and use
 aliases reach exactly the named item, in its own library also when the use is in another one, and only from where its visibility (pub, pub(lib), pub(self), pub(super)) admits it.
A name is rejected if and only if nothing visible is called that. What operators, lambdas and literals mean does not depend on the names a program gives its own items.""" ,
 ["programs"], "all placements of bindings, uses and imports up to a bound in module trees",
 "Scopes, uses and modules combine; tests sample single combinations.",
 ["spade-hir/src/symbol_table.rs", "spade-ast-lowering/src/global_symbols.rs", "spade-ast-lowering/src/lib.rs", "spade-common/src/namespace.rs"],
 [("lookup in scopes, use resolution", "spade-hir/src/symbol_table.rs")],
 TB + "All binding/reference arrangements of the bounded grammar; the resolved definition is observed through the value computed.")
prop("P19", "Types are inferred soundly and mismatches rejected",
 """A program over integer, bool and compound types is accepted exactly if its types and widths are consistent under the language's typing
 rules; inferred widths equal the declared rule; an omitted annotation that can be inferred gives the same hardware as writing it, and one that cannot is reported.""",
 ["programs"], "all small expressions x all annotations; all subsets of annotations erased",
 "The tests check single inference steps; consistency across constraints in any order is never enumerated.",
 ["spade-typeinference/src/lib.rs", "spade-typeinference/src/constraints.rs", "spade-typeinference/src/expression.rs", "spade-typeinference/src/equation.rs"],
 [("unification and constraint propagation", "spade-typeinference/src/lib.rs")],
 "Verdict compared with a reference type checker for every program of the bounded grammar; accepted ones also simulated.",
 technique="bounded-exhaustive enumeration of programs against a reference type checker and model")
prop("P20", "Compile-time numbers: const generics, where clauses and gen if",
 """Expressions over constant generic parameters evaluate to the exact integer in every position (widths, lengths, arguments, depths), a `where` clause accepts an instance
 exactly if its condition holds, and `gen if` elaborates exactly the branch its condition selects.""",
 ["programs"], "const expressions x parameter values x positions",
 "Tests use one or two instances per expression form.",
 ["spade-typeinference/src/constraints.rs", "spade-typeinference/src/requirements.rs", "spade-hir/src/lib.rs", "spade-ast-lowering/src/lib.rs", "spade-hir-lowering/src/monomorphisation.rs"],
 [("ConstraintExpr evaluation", "spade-typeinference/src/constraints.rs")],
 TB + "All const expressions of depth 2 over the operator set x parameter values 0..8 and their observable effect.")
prop("P21", "Standard-library functions compute their documentation",
 """Every combinational function and method of the standard library that is documented with a meaning (numeric, option, array, conversion and bit
 helpers) computes exactly that for every instantiation and argument.""",
 ["programs", "inputs"], "stdlib functions x instantiations x all arguments",
 "Doc examples and swim tests check single values of single instances.",
 ["spade-compiler/stdlib/num.spade", "spade-compiler/stdlib/option.spade", "spade-compiler/stdlib/array.spade", "spade-compiler/stdlib/conv.spade", "spade-compiler/stdlib/ops.spade"],
 [("library source", "spade-compiler/stdlib")],
 TB + "All listed functions at several instantiations; all arguments.")
prop("P22", "Standard-library sequential units keep their protocols",
 """FIFOs deliver exactly the accepted items in order without loss, duplication or invention and report full and empty
 truthfully; the clock-domain synchronisers, edge detectors, memories and ready/valid adapters of the standard library
 behave as documented under every input history and every interleaving of clocks.""",
 ["histories", "schedules", "programs"], "all input histories and clock interleavings to closure of the reachable states",
 "Simulation tests drive one history.",
 ["spade-compiler/stdlib/mem.spade", "spade-compiler/stdlib/cdc.spade", "spade-compiler/stdlib/io.spade", "spade-compiler/stdlib/ports.spade"],
 [("fifo pointers", "spade-compiler/stdlib/mem.spade"), ("handshake", "spade-compiler/stdlib/cdc.spade")],
 TB + "Product reachability to closure for small depths and element types.")
prop("P23", "Bit patterns read back as the Spade values they encode",
 """Translating a signal's bits through the recorded type information (value translation used by waveform tools and simulations) yields exactly the Spade value those bits encode, shows undefined bits as undefined
 and never fails; comparing an expected Spade expression with an output reports equal exactly if all defined bits agree.""",
 ["inputs", "programs"], "all types up to a size bound x all bit strings over 0,1,X,Z",
 "Tests translate a few values of a few types.",
 ["vcd-translate/src/translation.rs", "spade-simulation-ext/src/lib.rs"],
 [("translate_value / value_from_str", "vcd-translate/src/translation.rs"), ("compare_spade / output comparison", "spade-simulation-ext/src/lib.rs")],
 "Every bit string of every type in the bound against an independent decoder.",
 technique="exhaustive enumeration of types and four-state bit strings against a reference decoder", observe=["the translated value strings", "comparison results"])
prop("P24", "Recorded metadata describes the emitted hardware",
 """The item list and compiler state written next to the Verilog name every emitted module exactly, map every Verilog signal back to the source value it carries with the type it has,
 and survive being written and read back.""",
 ["programs"], "programs of a corpus of all item and statement kinds",
 "Tests do not compare the dump with the emitted Verilog.",
 ["spade-compiler/src/compiler_state.rs", "spade-compiler/src/lib.rs", "spade-hir-lowering/src/name_map.rs", "spade-mir/src/renaming.rs"],
 [("verilog name map", "spade-mir/src/renaming.rs"), ("CompilerState", "spade-compiler/src/compiler_state.rs")],
 "Every signal of every program of the corpus, looked up through the written state.",
 technique="exhaustive enumeration of a program corpus; the written state is replayed against the elaborated Verilog",
 observe=["state dump and item list files"])
prop("P25", "Constants evaluated at compile time equal what the circuit computes",
 """A register's initial value, a memory's initial content and other positions that need a compile-time constant take exactly the value that
 the same expression has as a circuit; an expression that is not constant there is rejected with a diagnostic.""",
 ["programs"], "all constant expressions of a bounded grammar over all operators and types",
 "Tests evaluate a few literals.",
 ["spade-mir/src/eval.rs", "spade-mir/src/codegen/mod.rs"],
 [("eval_statements", "spade-mir/src/eval.rs")],
 TB + "Every constant expression of depth up to 2 is compiled both as an initial value and as a circuit; power-on values are compared.")
prop("P26", "Precedence, associativity and layout decide nothing else",
 """An expression without parentheses means the same as the fully parenthesised expression given by the documented precedence and associativity, and white space, comments, redundant parentheses or
 trailing commas never change the meaning of a program.""",
 ["programs", "inputs"], "all operator pairs and triples; all token boundaries",
 "Tests parse a few combinations.",
 ["spade-parser/src/expression.rs", "spade-ast/src/token.rs", "spade-parser/src/lib.rs"],
 [("precedence climbing", "spade-parser/src/expression.rs")],
 TB + "All operator pairs and triples that type-check, in three-operand expressions, on all inputs; comments and blanks at every token boundary of the corpus.")
prop("P28", "Declaration order and file boundaries do not matter",
 """Reordering items within a module, or moving items between files of the same namespace or between inline `mod` blocks and files with that
 namespace, changes neither the verdict nor the hardware.""",
 ["programs", "configurations"], "all permutations of items and all partitions into files of a corpus of programs",
 "Tests compile one order and one file.",
 ["spade-ast-lowering/src/global_symbols.rs", "spade-compiler/src/lib.rs", "spade-hir/src/symbol_table.rs"],
 [("symbol collection passes", "spade-ast-lowering/src/global_symbols.rs")],
 TB + "Every permutation and every partition into up to 3 files of each corpus program.")
prop("P29", "assert fires exactly when its condition is false",
 """An `assert` in a clocked or combinational unit fails in simulation exactly in those states where its condition is false, whatever text
 the asserted expression contains, and never disturbs the value computed.""",
 ["programs", "histories"], "assert conditions x positions x all inputs and states",
 "Tests pin the emitted text.",
 ["spade-mir/src/codegen/mod.rs", "spade-hir-lowering/src/lib.rs"],
 [("Assert codegen", "spade-mir/src/codegen/mod.rs")],
 TB + "All conditions of the bounded grammar in all positions; all inputs.")
prop("P30", "The external interface is as declared",
 """Ports of the emitted module keep declared order of names, direction and width: inputs as `<name>_i`, outputs as `<name>_o` or `output__`, both halves for mixed ports, exact names for no_mangle;
 instances of extern units are connected to the ports declared for them, with parameters passed unchanged.""",
 ["programs"], "all parameter lists up to a bound over types, attributes and directions",
 "Tests pin the text of single modules.",
 ["spade-hir-lowering/src/lib.rs", "spade-mir/src/codegen/mod.rs", "spade-mir/src/unit_name.rs", "spade-hir-lowering/src/attributes.rs"],
 [("port naming and mangling", "spade-mir/src/codegen/mod.rs")],
 TB + "All parameter lists of length up to 3; extern units are replaced by behavioural stand-ins and simulated.")
