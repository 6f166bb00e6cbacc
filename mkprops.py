#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the long texts stay readable)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

MA = "circom_algebra/src/modular_arithmetic.rs"
AL = "circom_algebra/src/algebra.rs"
SU = "circom_algebra/src/simplification_utils.rs"
CS = "constraint_list/src/constraint_simplification.rs"
p("C01", "Field operators compute their documented meaning modulo the prime",
  "For every prime of the language and all operands that are elements of the field, each compile-time operator (+ - * / \\ % ** unary -, ~ & | ^ << >>, comparisons on the signed reading, ! && ||, and batch inversion) returns exactly the element its documentation defines, again a canonical element in [0,p). "
  "Division, integer division and remainder report an error exactly when the divisor is zero, and no operator aborts.",
  ["inputs"], "all primes p > 6 and all operand pairs in [0,p)",
  "The unit tests evaluate five operand pairs over p = 257; the field has 2^254 elements and the interesting operands (0, p/2, p/2+1, p-1, shift amounts around the bit length and above 2^64) are never sampled.",
  [MA], [("the operator functions", MA), ("signed reading used by comparisons", MA + " val/comparable_element")],
  observe=["value of a constant expression", "division-by-zero report"])
p("C02", "Symbolic arithmetic on constraint expressions is faithful",
  "Whenever the compiler combines two symbolic values (constants, signals, linear and quadratic expressions) by addition, subtraction, multiplication, negation or division by a constant, the resulting expression evaluates, under every assignment of the signals to field elements, to the field operation applied to the operands' values, unless the result is the explicit 'non quadratic' value; that value appears only when an operand has it, the product's degree exceeds two, or two quadratic expressions are added. Every other operator gives its value on constants and 'non quadratic' on anything else (squares of linear expressions excepted). "
  "Turning an expression into a constraint gives a constraint that an assignment satisfies exactly when the expression evaluates to zero.",
  ["inputs"], "all well-formed operand expressions (any number of signals, any coefficients) and all assignments over a prime field",
  "Four unit tests check single hand-written expressions syntactically; the guarantee quantifies over all coefficient maps and all assignments.",
  [AL], [("expression constructors and operators", AL + " ArithmeticExpression"), ("constraint form", AL + " transform_expression_to_constraint_form")])
p("C03", "Substituting a signal and normalising a constraint preserve the solutions",
  "Replacing a signal by its defining linear expression in a constraint, another substitution, or an expression yields something that has, under every assignment satisfying the definition, exactly the value (satisfaction) of the original, and the replaced signal no longer occurs. "
  "Normalising a constraint, solving a linear constraint for one of its signals, shifting all signal numbers, and renumbering the signals by an injective map each preserve the satisfying assignments (up to that renumbering).",
  ["inputs"], "all constraints A*B=C and substitutions with any number of signals, all field assignments",
  "Existing tests compare three printed results; the preservation claim ranges over all constraints and assignments.",
  [AL], [("apply_substitution, fix_constraint, clear_signal_from_linear, apply_offset, apply_correspondence", AL)])
p("C04", "Eliminating linear constraints preserves the meaning of the circuit",
  "Given a set of linear constraints and a set of protected signals, the linear simplifier returns substitutions and residual constraints such that an assignment satisfies the input constraints exactly when it satisfies the residual constraints and every returned substitution. "
  "No protected signal is ever eliminated, each eliminated signal is eliminated once, and no eliminated signal occurs in the residual constraints or in the right-hand side of any returned substitution. "
  "For the whole circuit, the constraints left after simplification (equality classes, constant equalities and linear elimination rounds applied to every constraint) have, over the kept signals, exactly the solutions of the original constraints.",
  ["inputs"], "all finite sets of linear constraints over a prime field, every protected set containing the constant signal, both elimination heuristics",
  "There is no test of the simplifier; the result depends on hash-map and ordering choices and on the whole constraint set.",
  [SU], [("Gaussian style elimination", SU + " full_simplification"), ("normalisation of the eliminated signals", SU)])
p("C05", "Signals kept after simplification are renumbered densely and injectively",
  "After simplification every signal that is kept receives a witness position, the positions are exactly 0..k-1 for k kept signals, their order follows the original signal order, and no eliminated signal receives one. "
  "Protected signals (the constant one, the outputs and public inputs of the main component, and the signals of custom gates) are always kept; another signal is dropped only when it was eliminated or occurs in no remaining constraint.",
  ["inputs", "programs"], "all numbers of signals, all eliminated sets disjoint from the protected set, all constraint occurrence maps",
  "No test exercises the renumbering; a position collision depends on the pattern of eliminated signals.",
  [CS], [("witness renumbering", CS + " rebuild_witness")])
p("C06", "The .r1cs file is a faithful encoding of the constraint system",
  "For every constraint system, prime and header data handed to the R1CS writer, the bytes written follow the iden3 r1cs format: magic, version, section table with exact sizes, header fields, every linear combination with its exact number of terms, each term's wire number and coefficient in fixed-width little endian below the prime, constraints in order, and the wire-to-label map. "
  "With custom templates the two further sections list every custom template instantiated (bare name, parameters as field elements) and every use of one, as its index in that list and the wires of its signals in declaration order. "
  "Decoding the file therefore gives back the same constraints, counters, labels and custom gates.",
  ["inputs"], "all constraint systems whose counters fit the format's integer widths",
  "No test writes or reads a .r1cs file; byte-level faults show only for particular coefficient widths or section sizes.",
  ["constraint_writers/src/r1cs_writer.rs", "constraint_list/src/r1cs_porting.rs", "dag/src/r1cs_porting.rs"],
  [("section and header writing", "constraint_writers/src/r1cs_writer.rs"), ("constraint enumeration and counters", "constraint_list/src/r1cs_porting.rs")],
  observe=["bytes of the .r1cs file"])
p("C07", "Stored constraints are returned unchanged",
  "The compact constraint store returns, for every identifier it handed out, a constraint equal to the one last stored under it (same coefficient for every signal in each of the three parts), for every sequence of insertions, replacements and reads. "
  "Identifiers are handed out consecutively and never alias.",
  ["histories", "inputs"], "all operation sequences and all constraints over any field",
  "No test covers the store; sharing of coefficients between constraints makes faults depend on the whole history.",
  ["circom_algebra/src/constraint_storage.rs", "constant_tracking/src/lib.rs"],
  [("storage encoding", "circom_algebra/src/constraint_storage.rs"), ("coefficient interning", "constant_tracking/src/lib.rs")])
p("C08", "Array values address exactly the selected cells",
  "For every array shape and every access path, reading a position or sub-array returns exactly the row-major cells that path selects, writing changes exactly those cells and no other, and an access path that is too long or has an index not smaller than its dimension is reported as an out-of-bounds error rather than aborting or touching another cell. "
  "Assigning a sub-array of a different shape is reported as a size mismatch. A strict assignment then changes nothing; a non-strict one (array variables) copies exactly the cells that exist in both.",
  ["inputs"], "all shapes, access paths and cell contents",
  "Three unit tests use fixed shapes and in-bounds indices only.",
  ["program_structure/src/utils/memory_slice.rs"], [("cell index computation and bounds checks", "program_structure/src/utils/memory_slice.rs")])
p("C09", "Comment removal keeps every token and every byte position",
  "For every source text, the preprocessed text has the same byte length, every byte outside comments is unchanged at the same position, and every byte of a comment becomes a blank (line breaks ending line comments are kept). "
  "A comment that is opened and never closed is reported, located at the byte right after its opening delimiter, and no other text is rejected.",
  ["inputs"], "all UTF-8 source texts",
  "There are no tests of the preprocessor; diagnostics all over the compiler rely on byte positions surviving it.",
  ["parser/src/parser_logic.rs"], [("comment state machine", "parser/src/parser_logic.rs preprocess")])
p("C10", "Signals and components are numbered by contiguous, disjoint ranges",
  "While a circuit is instantiated, the signals declared in a component get consecutive numbers after the previously declared ones, each subcomponent instance occupies a range exactly as long as its template's total number of signals, ranges of different instances never overlap, and names map back to exactly those numbers. "
  "Within an instance the signals come in the order outputs, public inputs (of the main component), other inputs, intermediates, each kind in order of declaration and arrays and buses cell by cell in row-major order, before the subcomponents; in the compiled files the constant one is signal 0 and the main component's signals start at 1. "
  "Counters of inputs, outputs, public inputs and total signals equal what was declared.",
  ["histories", "programs"], "all sequences of node, signal and subcomponent additions",
  "No test instantiates a circuit; wrong offsets silently connect different signals.",
  ["dag/src/lib.rs", "constraint_generation/src/execution_data/executed_template.rs"], [("per-template counters and edges", "dag/src/lib.rs Node, DAG, Tree"), ("order of declaration of wires", "constraint_generation/src/execution_data/executed_template.rs build_wires, generate_symbols, generate_bus_symbols")])
p("C11", "Compiler-version pragmas are enforced",
  "A program compiles only if every file's declared version does not require a newer or incompatible compiler: it is accepted exactly when the major numbers are equal and the declared (minor, patch) is not greater, lexicographically, than the compiler's; otherwise a version error is reported. "
  "A file with no version pragma is accepted with a warning. A file that declares custom templates, and every file that includes it directly or through others, must contain the pragma enabling them, and a file with that pragma must ask for version 2.0.6 or later (the compiler's own, if it asks for none); otherwise an error is reported.",
  ["inputs", "configurations"], "all version triples and flag combinations",
  "No test covers pragmas.",
  ["parser/src/lib.rs", "parser/src/include_logic.rs", "program_structure/src/abstract_syntax_tree/ast.rs"], [("version comparison", "parser/src/lib.rs check_number_version"), ("custom gates check", "parser/src/lib.rs check_custom_gates_version"), ("chains of includes", "parser/src/include_logic.rs IncludesGraph")])
p("C14", "Includes are resolved in order, followed completely and read once",
  "For every program, each include directive names the first file found in the including file's directory and then in the library directories in the order given; an include that names no file is reported. "
  "The program consists of exactly the files reachable from the main file through includes, each read once, however files are spelled, repeated, or include each other in cycles.",
  ["inputs", "configurations"], "all include graphs and directory layouts",
  "No test has more than one file.",
  ["parser/src/include_logic.rs", "parser/src/lib.rs"], [("work list of files", "parser/src/include_logic.rs FileStack"), ("file loop", "parser/src/lib.rs run_parser, find_file")])
p("C13", "The circuit consists of every instance's constraints, on that instance's own signals",
  "For every hierarchy of template instances, the constraints of the circuit are exactly, instance by instance, the non-empty constraints of its template with every signal shifted to that instance's range: none lost, none duplicated, none on another instance's signals. "
  "What the simplifier receives is these constraints sorted by kind (signal equal to a constant, two signals equal, other linear; non-linear ones in the encoded templates), with the constant one, the main component's outputs and public inputs, and the signals of custom gates protected; "
  "without simplification the witness consists of every signal once, at the position of its number. The .sym file has exactly one line per signal of every instance, with its number, its witness position or -1 if it has none, and its full name.",
  ["programs"], "all circuits: any hierarchy, any number of instances, any constraints",
  "No test compiles a program with subcomponents; an offset mistake constrains the wrong signals silently.",
  ["dag/src/map_to_constraint_list.rs", "dag/src/witness_producer.rs", "dag/src/sym_porting.rs", "constraint_list/src/lib.rs", "constraint_list/src/state_utils.rs", "constraint_list/src/sym_porting.rs", "constraint_writers/src/sym_writer.rs"],
  [("flattening", "dag/src/map_to_constraint_list.rs map_tree, produce_encoding, map"), ("walk over the encoded templates", "constraint_list/src/lib.rs EncodingIterator"), ("symbol file", "dag/src/sym_porting.rs, constraint_list/src/sym_porting.rs")])
p("C12", "Variable scoping: lookup finds the innermost binding and blocks restore it",
  "At every point of any sequence of block entries, block exits, declarations and assignments, looking up a name yields the binding made in the innermost block that is still open and binds it; leaving a block removes exactly the bindings made in it, and all others keep their values; signals, buses and components of a name are never affected by operations on another name or kind. "
  "Joining the environments of the two branches of a conditional (which have the same open blocks) keeps, block by block, every name bound in either branch: with its value when one branch binds it, with the two values combined by the given function, left branch first, when both do.",
  ["histories"], "all sequences of environment operations in which blocks are left only when open",
  "No test covers the environment; the guarantee is about histories of operations.",
  ["program_structure/src/utils/environment.rs"], [("block stack", "program_structure/src/utils/environment.rs")])
p("C15", "Template instances are shared only between equal instantiations",
  "Whenever a component (or bus) is instantiated, the instance it refers to has exactly the template (bus) name asked for, exactly the given arguments bound to the parameters in order - same dimensions and same value in every cell - and, for templates, the same tags with the same values on its inputs. "
  "An already compiled instance is reused exactly when these are all equal; otherwise a new instance is added and no existing instance changes or moves. After the call the caller's own scope, file and known/unknown state are what they were.",
  ["programs", "histories"], "all sequences of instantiations; all names, arguments and tags",
  "No test instantiates a template twice; a wrong reuse silently gives a component the constraints of other parameters.",
  ["constraint_generation/src/execution_data/executed_program.rs", "constraint_generation/src/execution_data/executed_template.rs", "constraint_generation/src/execution_data/executed_bus.rs", "constraint_generation/src/execute.rs", "program_structure/src/utils/memory_slice.rs", "circom_algebra/src/algebra.rs"],
  [("search and insertion of instances", "constraint_generation/src/execution_data/executed_program.rs identify_node, add_node_to_scheme, identify_bus_node, add_bus_node_to_scheme"), ("binding of arguments", "constraint_generation/src/execute.rs execute_template_call, execute_bus_call"), ("equality of values", "program_structure/src/utils/memory_slice.rs, circom_algebra/src/algebra.rs PartialEq")])
p("C16", "Accepted programs obey the structural rules of the language",
  "A program passes check_types only if: every name used anywhere (in any expression, index, dimension, argument, assignment target) is declared earlier in an enclosing block or is a parameter; no block declares a name twice and no two parameters of a definition share a name; every call names an existing function, template or bus and has its number of arguments; no tag of a bus signal is a field of that bus; the public list of main only has its inputs; "
  "every path through a function ends in a return, and a function contains no signal, component, bus, constraint, signal assignment, template call or dotted access; a template contains no return and declares no signal, component or bus inside a loop; a bus contains only declarations of signals and buses without direction; a custom template that is reached has no constraint and no component; only custom templates are extern_c. "
  "This holds at any nesting depth, and a program that breaks a rule is rejected with a report, not by a panic. Conversely no program is rejected by these rules if it obeys them: in particular an inner block may declare a name of an outer block again.",
  ["programs"], "all programs: all bodies, all nesting of blocks, branches and loops",
  "The tests do not contain a single rejected program; a rule that is not enforced at some depth makes later phases panic or silently compile something else.",
  ["type_analysis/src/check_types.rs", "type_analysis/src/analyzers/symbol_analysis.rs", "type_analysis/src/analyzers/functions_all_paths_with_return_statement.rs", "type_analysis/src/analyzers/functions_free_of_template_elements.rs", "type_analysis/src/analyzers/no_returns_in_template.rs", "type_analysis/src/analyzers/signal_declaration_analysis.rs", "type_analysis/src/analyzers/buses_free_of_invalid_statements.rs", "type_analysis/src/analyzers/custom_gate_analysis.rs"],
  [("order of the checks", "type_analysis/src/check_types.rs check_types"), ("names, scopes and calls", "type_analysis/src/analyzers/symbol_analysis.rs check_naming_correctness, analyze_statement"), ("returns", "type_analysis/src/analyzers/functions_all_paths_with_return_statement.rs analyse_statement"), ("what a body may contain", "type_analysis/src/analyzers/functions_free_of_template_elements.rs, signal_declaration_analysis.rs, buses_free_of_invalid_statements.rs, custom_gate_analysis.rs")])
p("C17", "Tables embedded in the generated witness calculators are faithful",
  "Both generated witness calculators (the WASM module's data segments and the C++ .dat file) contain exactly the tables of the circuit, at the places their readers look: the field prime; the input table, in which every main input is found by linear probing from its 64-bit FNV-1a hash (the table has a power-of-two number of slots, never fewer than the inputs) with its first signal and its size; the witness-to-signal list in order; the constant signal 0 holding one; for every template instance and bus the record of every input/output signal or field (offset in memory, dimensions but the first, size, bus) reached by following the pointers; every constant of the program in the field library's representation (short value when it fits 32 bits, and Montgomery form, reduced); messages and strings, cut to their slot and terminated. "
  "No two tables overlap each other, the signal memory, the component tree or the stack, whatever their sizes.",
  ["programs"], "all tables: all numbers of inputs, witnesses, templates, buses, constants and texts; all primes",
  "The tests emit two fixed producers and look at nothing; a wrong address, an entry lost after a hash collision or a wrong constant gives wrong witnesses, and only for particular circuits.",
  ["code_producers/src/wasm_elements/mod.rs", "code_producers/src/wasm_elements/wasm_code_generator.rs", "code_producers/src/c_elements/mod.rs", "code_producers/src/c_elements/c_code_generator.rs", "code_producers/src/components/mod.rs"],
  [("addresses of the tables", "code_producers/src/wasm_elements/mod.rs get_*_start"), ("WASM data segments", "code_producers/src/wasm_elements/wasm_code_generator.rs generate_data_list, generate_hash_map, generate_data_constants"), ("C++ .dat file", "code_producers/src/c_elements/c_code_generator.rs generate_dat_file"), ("hash of input names", "code_producers/src/components/mod.rs hasher")])
p("C18", "Anonymous components and tuples are expanded to the plain statements they abbreviate",
  "Every anonymous component call `T(params)(args)` is replaced by one new component of template T (declared under a name made from template, line and position, which the program must not use for anything else; created before anything uses it, kept parallel if it was) whose inputs are assigned with <== exactly the given arguments (positional arguments in the order the inputs are declared, named ones to the input of that name, arguments that are themselves anonymous calls expanded first), and by its outputs in the order they are declared: one output stands for itself, several for a tuple. "
  "A call inside a loop gets one component per iteration. Tuples are assigned element by element with the operator written, nested tuples opened on both sides, and `_` discards. Long texts in a log are cut into pieces that print the same text. Everything else in the program is left as written, and after the expansion no tuple, anonymous call or tuple assignment is left. "
  "A use that has no such meaning (unknown template, wrong number or names of arguments, <-- with a call, a call or tuple inside an operation, condition, index, assertion, function, bus or the main expression, tuples of different lengths, a target that is not a variable) is rejected with a report, not by a panic, and no other use is.",
  ["programs"], "all programs: all statements and expressions, all nesting of calls, arrays, tuples, loops and branches, all texts",
  "The tests compile no anonymous component and no tuple; an argument given to the wrong input, or a component shared by two iterations, yields a circuit with other constraints.",
  ["parser/src/syntax_sugar_remover.rs", "program_structure/src/abstract_syntax_tree/statement_builders.rs", "program_structure/src/abstract_syntax_tree/expression_impl.rs", "program_structure/src/abstract_syntax_tree/statement_impl.rs"],
  [("anonymous components in expressions", "parser/src/syntax_sugar_remover.rs remove_anonymous_from_expression"), ("anonymous components in statements, loops", "parser/src/syntax_sugar_remover.rs remove_anonymous_from_statement"), ("tuples", "parser/src/syntax_sugar_remover.rs remove_tuples_from_statement, remove_tuple_from_expression"), ("what is rejected", "parser/src/syntax_sugar_remover.rs check_anonymous_components_statement, check_tuples_statement, apply_syntactic_sugar"), ("pieces of a log", "program_structure/src/abstract_syntax_tree/statement_builders.rs build_log_call, split_string")])
p("C19", "What the compiler takes to be known does not depend on the inputs",
  "A template or bus is accepted by the static analysis only if the size of every array, the template of every component, the parameters of every bus, the value of every tag, every index used in a constraint or in the access to a component, and every condition under which constraints, tag assignments or declarations stand, is known: it is made of numbers, parameters, tags and scalar variables whose value on every path to that point was assigned from known values under known conditions, loops being followed until nothing else becomes unknown (array elements are not tracked one by one: a program that uses one is settled during the execution). What is found known is accepted, anything else is reported. "
  "During the generation of the constraints a variable, an array element or the result of a function keeps its value only if it has that value for every input: after a condition or a loop that depends on inputs it is unknown. So whenever a constraint is generated, the values the program computes satisfy it for every input.",
  ["programs", "inputs"], "all templates and buses: all statements, expressions, nesting of blocks, branches and loops; all inputs",
  "The tests compile no program whose variables depend on signals through nested conditions and loops; a constraint made from a stale value makes a correct witness fail, or a wrong one pass.",
  ["type_analysis/src/analyzers/unknown_known_analysis.rs", "constraint_generation/src/execute.rs"],
  [("what is known at each statement, branches and loops", "type_analysis/src/analyzers/unknown_known_analysis.rs analyze, check_modified"), ("what is known of an expression", "type_analysis/src/analyzers/unknown_known_analysis.rs tag, unknown_index"), ("variables assigned under unknown conditions during the execution (bounded)", "constraint_generation/src/execute.rs execute_conditional_statement, perform_assign, While")])
P.sort(key=lambda d: d["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
