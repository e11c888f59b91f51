#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note))

UNIT = "Existing tests sample a handful of hand-written formulas"

p("F01", "Formula construction denotes the composed Boolean function",
  "A formula obtained from a formula factory by any sequence of constructor calls (constants, literals, not, and, or, implication, equivalence, clause, minterm, AMO/EXO/CC/PBC) denotes exactly the Boolean function of the requested composition over all assignments of its variables, whatever simplifications the factory applies. This holds with and without variable conservation, and the operands, comparator, coefficients and right-hand side read back from a formula describe that same function.",
  ["inputs","configurations"], "all constructor trees over any operands (constants, repeated and complementary operands, nested same-sort operators, positive/negative/zero coefficients, any rhs), both factory modes",
  UNIT+" and fixed operand lists; simplification interactions (flattening, duplicate and complement detection, constant folding, one-operand collapse) span unboundedly many operand combinations.",
  ["formula/factory.go","formula/formula.go"],
  [("n-ary condensation, complement detection, constant folding","formula/factory.go"),("CC/PBC constant evaluation and classification","formula/factory.go PBC/CC")],
  ["formula.Factory constructors, Operands, PBCOps, assignment.Evaluate"],
  "Truth tables of the requested composition (independent AST evaluator) are compared with truth tables read structurally from the factory's formula and through Evaluate.")

p("F02", "Factory formulas are canonical, well-formed and immutable",
  "Within one factory, constructing the same composition again yields the identical formula handle at any later time, and a formula's operands, printed form and meaning never change no matter what other formulas, transformations, solvers or encodings are computed on that factory or what a caller does with slices it passed in. Every formula is in the documented reduced shape: n-ary operators have at least two operands, none of them a constant, a duplicate, or the same operator, and, unless the factory conserves variables, no operand occurs together with its negation; negations wrap only compound formulas; double negation and negation of literals return the original.",
  ["histories","inputs"], "every interleaving of constructions, transformations, encodings and solver uses on one factory",
  "Tests check handle equality for freshly built fixed formulas only, never after a history of other operations, nor that earlier formulas survive it.",
  ["formula/factory.go","formula/formula.go","sat/solver.go","encoding/pbc_encoding.go","encoding/normalize.go"],
  [("hash-consing maps per formula sort","formula/factory.go"),("negation cache","formula/factory.go Not / Formula.Negate")],
  ["formula.Factory constructors, Sprint, Operands, Negate"],
  "Stateful: a growing pool of formulas is snapshotted (truth table, string, operands) and re-checked after every operation.")

p("F03", "Structural queries agree with the formula's structure",
  "Variables, literals, variable and literal profiles, sub-nodes, depth, number of atoms and number of nodes reported for a formula equal what a direct recursive inspection of its operands yields, for every formula and independent of query order and caching. Sub-nodes are listed without duplicates with operands before the formulas that use them, and variable/literal sets contain exactly the occurring variables/literals.",
  ["inputs","histories"], "all formulas (incl. shared subformulas, constraints, negations) and all orders of queries on a factory",
  UNIT+"; caches keyed per formula can return stale or wrong-kind results only for particular query sequences.",
  ["formula/formula_depth.go","formula/formula_profile.go","formula/number_of_atoms.go","formula/number_of_nodes.go","formula/subnode.go","formula/set.go"],
  [("per-factory function caches","formula/function.go"),("recursive visitors","formula/subnode.go, formula/formula_profile.go")],
  ["formula.Variables, Literals, Depth, NumberOfAtoms, NumberOfNodes, SubNodes, VariableProfile, LiteralProfile"],
  "Reference visitors over the generated AST as read back from operands.")

p("F04", "Evaluation and restriction follow the assignment semantics",
  "Evaluating a formula under an assignment gives the value of its Boolean function with unassigned variables counted as false; restricting a formula by an assignment yields a formula without the assigned variables (outside what stays unassigned) that is equivalent to the original on every extension of the assignment. The partial-evaluation predicates report true (false) only if every completion of the partial assignment evaluates to true (false).",
  ["inputs"], "all formulas incl. cardinality and pseudo-Boolean constraints, all total and partial assignments",
  UNIT+" with a few assignments each; partial assignments on constraints have many threshold cases.",
  ["assignment/assignment.go","assignment/evaluate.go","assignment/restrict.go","assignment/evaluate_to_constant.go"],
  [("recursive evaluation/restriction","assignment/"),("PBC partial evaluation bounds","assignment/")],
  ["assignment.New, Evaluate, Restrict, EvaluatesToTrue, EvaluatesToFalse"],
  "Truth-table oracle on generated formulas and partial assignments.")

p("F05", "Assignments, models, sets and propositions are faithful containers",
  "An assignment or model built from any sequence of literals holds exactly these: adding a literal whose complement is present is refused and changes nothing, the positive and negative variables, size, printed form and the formula of a model describe exactly the added literals, and converting between assignments and models loses nothing. Sets of variables, literals and formulas behave as mathematical sets with sorted content after any history of additions and removals and never modify their arguments; propositions keep their formula and payload.",
  ["inputs","histories"], "all literal sequences (also conflicting and repeated), all set operation histories",
  "Tests check three or four literals once.",
  ["assignment/assignment.go","model/model.go","formula/set.go","formula/proposition.go"],
  [("two literal maps with complement check","assignment/assignment.go"),("cached sorted content of mutable sets","formula/set.go")],
  ["assignment.New/AddLit/PosVars/NegVars/Sprint, model.New/FromAssignment/Assignment/Formula, VarSet/LitSet/FormulaSet and mutable variants, propositions"],
  "Map models of the history.")

p("P01", "Printing and parsing are inverse and respect operator precedence",
  "Parsing the default printed form of any formula on the same factory returns that same formula, and on a fresh factory an equivalent formula over the same variable names. Any valid input text denotes the function given by the documented operator precedence and associativity, including pseudo-Boolean constraints, redundant parentheses and white space.",
  ["inputs"], "all formulas with parseable names; all generated texts of the grammar with arbitrary parenthesisation and spacing",
  UNIT+"; precedence/associativity and bracket minimisation interact over all operator nestings.",
  ["parser/propositional_parser.go","parser/LogicNGPropositional.g4","formula/printer.go"],
  [("bracket decision in printer","formula/printer.go"),("ANTLR grammar + listener","parser/")],
  ["Formula.Sprint, parser.Parse"],
  "Round trip through printer and parser and an independent precedence-aware text generator.")

p("P02", "The parser is total: any text gives a formula or an error",
  "For every input string the parser returns either a formula or an error and never panics or hangs, and a text that is not in the documented grammar is rejected with an error rather than silently accepted as something else. A failed parse leaves the factory and the parser usable.",
  ["inputs","histories"], "arbitrary strings and mutated valid texts, sequences of failing and succeeding parses on one parser",
  "Tests try a few malformed strings; the space of token sequences is unbounded.",
  ["parser/propositional_parser.go","parser/LogicNGPropositional.g4"],
  [("error listener on lexer and parser","parser/propositional_parser.go"),("listener stack evaluation","parser/")],
  ["parser.Parse"],
  "Token-level mutation fuzzing against an independent recogniser of the grammar.")

p("I01", "Formula files and DIMACS files round trip",
  "Writing formulas to a file or writer and reading them back yields equivalent formulas (identical on the same factory), one per line when conjunctions are split. Writing a CNF in DIMACS yields a well-formed file whose header counts match and whose clauses under the returned variable mapping are exactly the formula's clauses, and reading any well-formed DIMACS file (one clause per line) yields exactly its clauses over prefixed variable names. Failing reads and writes are reported as errors.",
  ["inputs"], "all formulas / CNFs incl. constants, unit clauses and single-clause formulas; generated DIMACS files with comments and spacing",
  "Tests compare a few checked-in files.",
  ["io/formula_reader.go","io/formula_writer.go","io/dimacs_reader.go","io/dimacs_writer.go"],
  [("formula writer/reader","io/"),("DIMACS writer/reader","io/")],
  ["io.WriteFormula*, ReadFormula(s), WriteDimacs*, ReadDimacs*"],
  "Round trip plus an independent DIMACS parser; files live in a scratch directory.")

p("N01", "Normal-form transformations keep the function and reach the form",
  "NNF, AIG, factorized DNF, factorized CNF, BDD-based and canonical CNF/DNF of any formula are logically equivalent to it over its original variables (formulas with constraints: after projecting auxiliary variables) and syntactically satisfy the shape of their normal form. The predicates that recognise NNF, CNF, DNF, minterm, maxterm and AIG agree with the syntactic definition on every formula.",
  ["inputs","histories"], "all formulas (incl. CC/PBC where supported), any order of transformations on the same factory",
  UNIT+"; results are cached per formula and recursive, so nested combinations and sequences matter.",
  ["normalform/nnf.go","normalform/cnf.go","normalform/dnf.go","normalform/aig.go","normalform/term.go","bdd/normalform.go","model/enum/normalform.go"],
  [("recursive distribution with subsumption","normalform/cnf.go, dnf.go"),("transformation and predicate caches","formula/transformation.go, predicate.go")],
  ["normalform.NNF/AIG/FactorizedCNF/FactorizedDNF/Is*, bdd.CNF/DNF, enum.CanonicalCNF/DNF"],
  "Truth-table equivalence plus independent syntactic shape checkers.")

p("N02", "Auxiliary-variable CNF conversions are exact projections",
  "Tseitin, Plaisted-Greenbaum, advanced and configured CNF conversions return a CNF whose models, projected to the original variables, are exactly the models of the input formula, with auxiliary variables that are new and disjoint from the input. This stays true when several formulas are converted with a shared conversion state or repeatedly on one factory, for every boundary configuration.",
  ["inputs","histories","configurations"], "all formulas, all algorithm/boundary configurations, all sequences of conversions sharing state",
  UNIT+" at default boundaries and mostly single conversions; state reuse across formulas is history dependent.",
  ["normalform/cnf.go","normalform/nnf.go","encoding/pbc_encoding.go"],
  [("definition clauses and literal maps","normalform/cnf.go"),("advanced fallback on handler bounds","normalform/handler.go")],
  ["normalform.CNF, TseitinCNF*, PGCNF*, CNFAuxState"],
  "For every assignment of the original variables an independent DPLL decides whether the CNF is extendable and compares with the truth table; conjunctions of several conversions sharing state are checked jointly.")

p("E01", "Cardinality encodings are exact for every encoder and configuration",
  "For every cardinality constraint (any comparator, any number of variables, any bound) and every selectable encoder and encoder parameter, the produced clauses project to exactly the assignments satisfying the constraint, both as formulas and when added to a SAT solver. Auxiliary variables introduced are always fresh (apart from the library's reserved placeholder).",
  ["inputs","configurations"], "all comparators x bounds x variable counts x encoder choices x parameters, several constraints sharing a factory/solver",
  "Tests enumerate models for a few sizes and bounds per encoder; boundary sizes (group sizes, powers of two, k near 0 or n) are sparse.",
  ["encoding/amo.go","encoding/cc_encoding.go","encoding/cc_totalizer.go","encoding/cc_modular_totalizer.go","encoding/cc_cardinality_network.go","encoding/config.go"],
  [("encoder selection and edge cases","encoding/cc_encoding.go"),("totalizer/modular/network constructions","encoding/cc_*.go"),("encoding result abstraction","encoding/result.go, sat/encoding_result.go")],
  ["encoding.EncodeCC, sat.Solver.Add"],
  "Exhaustive projection check per generated constraint with independent DPLL (n up to about 9) and differential SAT enumeration.")

p("E02", "Pseudo-Boolean encodings, normalization and negation are exact",
  "For every pseudo-Boolean constraint with arbitrary integer coefficients (negative, zero, repeated literals) and right-hand side and every encoder configuration, the encoded clauses project to exactly the satisfying assignments. Normalizing or negating a constraint yields a formula equivalent to the constraint or its complement.",
  ["inputs","configurations"], "all comparators, coefficient vectors, literals and bounds, all PBC encoders and flags",
  "Tests use a few coefficient vectors with default flags; arithmetic edge cases (zero, gcd, sign flips, bit widths) need search.",
  ["encoding/pbc_encoding.go","encoding/pbc_swc.go","encoding/pbc_binary_merge.go","encoding/pbc_adder.go","encoding/normalize.go"],
  [("normalization to <= with positive coefficients","encoding/normalize.go"),("SWC, binary merge, adder networks","encoding/pbc_*.go")],
  ["encoding.EncodePBC, Normalize, NegatePBC"],
  "Exhaustive projection check per generated constraint with independent DPLL.")

p("E03", "Incremental cardinality bounds tighten exactly",
  "After an incremental cardinality encoding, each tightening of the bound (as formulas or directly on a solver) restricts the models to exactly those satisfying the new bound, for every sequence of admissible tightenings and every encoder that supports it.",
  ["histories","inputs","configurations"], "all sequences of upper/lower bound tightenings on all incremental encoders",
  "Tests walk one fixed sequence per encoder and only compare satisfiability.",
  ["encoding/cc_incremental_data.go","encoding/cc_totalizer.go","encoding/cc_modular_totalizer.go","encoding/cc_cardinality_network.go","sat/solver.go"],
  [("stored output vectors","encoding/cc_incremental_data.go")],
  ["encoding.EncodeIncremental, NewUpperBound/NewLowerBound, sat.Solver.AddIncrementalCC"],
  "After every step the full projected model set is compared with the arithmetic definition.")

p("S01", "SAT verdicts and models are correct in every configuration",
  "For any set of formulas (including cardinality and pseudo-Boolean constraints) and any solver configuration, the solver reports satisfiable if and only if the conjunction has a model, and a returned model assigns exactly those requested variables that the solver knows such that it extends to a satisfying assignment. The satisfiability, tautology, contradiction, implication and equivalence predicates agree.",
  ["inputs","configurations"], "all formula sets over bounded variables, all combinations of CNF method, at-most handling, proof generation, phases, clause minimization and low-level parameters",
  "Tests fix a few configurations and formulas; defects hide in particular clause patterns and option combinations.",
  ["sat/solver.go","sat/core.go","sat/call.go","sat/pg_on_solver.go","sat/config.go","sat/predicate.go"],
  [("CDCL search, propagation, clause learning","sat/core.go"),("CNF/PG transformation onto solver","sat/pg_on_solver.go")],
  ["sat.Solver.Add/Sat/Call, sat.IsSatisfiable..."],
  "Brute-force truth tables as oracle on small instances over all configurations.")

p("S02", "SAT search stays sound and complete on hard conflict-rich instances",
  "On instances that force many conflicts, restarts, learnt-clause reductions and clause minimization, verdicts still match an independent procedure: models satisfy every clause and unsatisfiable answers are truly unsatisfiable. Repeated calls, assumption calls and calls after adding implied or new clauses on the same solver stay consistent.",
  ["inputs","histories","configurations"], "random k-SAT near the threshold, parity/XOR chains, pigeon-hole and cardinality-heavy instances, permuted and renamed, over solver configurations",
  "Tests solve a fixed set of DIMACS files with few configurations.",
  ["sat/core.go","sat/solver.go","sat/heap.go","sat/queue.go"],
  [("restart and clause database reduction","sat/core.go"),("conflict analysis and minimization","sat/core.go")],
  ["sat.Solver.Call"],
  "Model checking of answers, satisfiability by construction or an independent DPLL/Gaussian oracle.")

p("S03", "Incremental, decremental and assumption histories are consistent",
  "After any history of adding formulas and propositions, saving and loading states, temporary additions, and calls under assumptions, each call's verdict and model are those of the conjunction of exactly the formulas currently on the solver plus that call's temporary additions and assumptions. Loading a state that is no longer valid is rejected with an error and calls never leave behind their temporary additions.",
  ["histories","configurations"], "all sequences of add / save / load / call(assumptions, formulas, propositions) / backbone / enumeration, all solver configurations",
  "Tests run short fixed sequences; stale learnt clauses, caches or variables show only after particular interleavings.",
  ["sat/solver.go","sat/call.go","sat/core_state.go","sat/core.go","sat/pg_on_solver.go"],
  [("solver state stack","sat/core_state.go"),("call start/finish","sat/call.go"),("PG cache invalidation","sat/pg_on_solver.go")],
  ["sat.Solver.Add/SaveState/LoadState/Call"],
  "Stateful model-based test against a stack of truth tables.")

p("S04", "Unsat cores are unsatisfiable subsets of what was added",
  "Whenever proof generation is on and a call is unsatisfiable, the returned core consists only of propositions currently on the solver or added for that call (including assumptions) and their conjunction is unsatisfiable, after any solver history including state loads. Marking a core as a MUS is only done when it is minimal.",
  ["histories","inputs","configurations"], "all unsatisfiable histories with propositions, formulas, assumptions and save/load",
  "Tests check a few fixed instances.",
  ["sat/unsat_core.go","sat/proofs.go","sat/core.go","sat/call.go"],
  [("DRUP trace and trimming","sat/proofs.go"),("mapping clauses to propositions","sat/unsat_core.go")],
  ["CallResult.UnsatCore"],
  "Core membership and brute-force unsatisfiability of every returned core.")

p("S05", "Backbones are exact",
  "The computed backbone contains exactly the literals over the requested variables that are true in every model, split into positive, negative and optional parts according to the requested type, and reports unsatisfiability exactly when there is no model. Computing it leaves the solver's formulas unchanged.",
  ["inputs","configurations","histories"], "all formula sets, variable subsets (also unknown variables), backbone types and backbone options, repeated computations on one solver",
  UNIT+" with default options.",
  ["sat/backbone.go","sat/solver.go"],
  [("iterated SAT with candidate reduction","sat/backbone.go")],
  ["sat.Solver.ComputeBackbone"],
  "Truth-table backbone as oracle; solver re-checked afterwards.")

p("S06", "Information extracted from a solver describes its formula",
  "Formulas read back from a solver are equisatisfiable with, and projected to the original variables equivalent to, what was added; unit-propagated literals and propagated formulas are consequences whose conjunction with the rest is equivalent; variable occurrence counts match the stored clauses. Reported zero-level literals are implied by the formulas on the solver, after any history.",
  ["inputs","histories"], "all formula sets with histories of calls and state loads",
  "Tests check fixed outputs.",
  ["sat/formulas_on_solver.go","sat/unit_propagator.go","sat/var_occs.go","sat/call.go"],
  [("clause extraction","sat/formulas_on_solver.go"),("level zero literals","sat/call.go")],
  ["FormulasOnSolver, VarOccurrences, UPZeroLits, UnitPropagator"],
  "Projection and implication checked against truth tables.")

p("S07", "Optimization over literals finds a true optimum",
  "Maximizing (minimizing) a set of literals on a solver returns a model of the formulas on the solver in which the number of satisfied literals is the maximum (minimum) over all models, covering the requested variables known to the solver, or reports unsatisfiability exactly when there is none. Afterwards the solver holds the same formulas as before.",
  ["inputs","histories","configurations"], "all formula sets, literal lists (duplicates, complementary, unknown variables), additional variables and solver configurations",
  "Tests compare a few optimum values.",
  ["sat/optimizer_function.go","sat/solver.go","encoding/cc_incremental_data.go"],
  [("incremental cardinality tightening","sat/optimizer_function.go")],
  ["sat.Solver.Maximize/Minimize"],
  "Brute-force optimum.")

p("S08", "A canceled SAT call is reported and harms nothing",
  "If a handler cancels a SAT-based computation at any event, the result says it was canceled and carries no verdict (a canceled optimization at most a genuine but possibly suboptimal model), and every later computation on the same solver gives exactly the result it would have given without the canceled one. If the handler never cancels, the result equals the one without handler.",
  ["fault_sequences","histories","inputs"], "every cancelation point (k-th event) of solving, backbone and optimization calls over generated solver contents and subsequent uses",
  "Tests cancel at a few time-based points and do not reuse the solver.",
  ["sat/core.go","sat/call.go","sat/backbone.go","sat/optimizer_function.go","handler/handler.go"],
  [("handler checks in search","sat/core.go"),("state restoration after call","sat/call.go")],
  ["CallResult.OK/Canceled, handler.State"],
  "Cancel at every k-th event; compare follow-up results with a fresh solver and the truth table.")

p("M01", "Every MaxSAT algorithm returns the true optimum",
  "For every set of hard formulas and weighted soft formulas, every supported algorithm and configuration reports satisfiable iff the hard formulas have a model, and then an optimum equal to the minimal total weight of violated soft formulas together with a model of the hard formulas that attains exactly this optimum. All algorithms agree.",
  ["inputs","configurations"], "all hard/soft sets (duplicates, contradictions, tautologies, constants, equal and diverse weights), all algorithms, strategies and CNF methods",
  "Tests use fixed DIMACS instances with expected optima and mostly do not check the model's cost.",
  ["maxsat/solver.go","maxsat/algorithm.go","maxsat/alg_wbo.go","maxsat/alg_incwbo.go","maxsat/alg_linear_su.go","maxsat/alg_linear_us.go","maxsat/alg_msu3.go","maxsat/alg_wmsu3.go","maxsat/alg_oll.go","maxsat/enc_totalizer.go","maxsat/enc_swc.go"],
  [("core-guided / model-improving search","maxsat/alg_*.go"),("incremental encoders","maxsat/enc_*.go"),("soft formula selectors","maxsat/solver.go")],
  ["maxsat.Solver.Solve"],
  "Brute-force optimum over all assignments.")

p("M02", "MaxSAT solvers stay exact across incremental histories",
  "After any history of adding hard and soft formulas, solving, saving and loading states, and canceled solves, each solve reports the optimum of exactly the formulas currently on the solver. A canceled solve is reported as canceled, never as a verdict, and invalid states are rejected.",
  ["histories","fault_sequences","configurations"], "all sequences of add/solve/save/load/cancel on all algorithms",
  "Tests run short fixed incremental sequences.",
  ["maxsat/solver.go","maxsat/algorithm.go","maxsat/pg_on_solver.go"],
  [("state save/load and result caching","maxsat/solver.go, maxsat/algorithm.go")],
  ["maxsat.Solver.SaveState/LoadState/Solve/SolveWithHandler"],
  "Stateful model-based test against brute force.")

p("C01", "Model enumeration yields each projected model exactly once",
  "Enumerating the models of a formula or solver over a set of variables yields every projected model exactly once and nothing else, for every splitting strategy, bound and variable provider; each model assigns exactly the enumeration and additional variables and extends to a model. Enumerating into a BDD yields the BDD of the projected function, and the solver is unchanged afterwards.",
  ["inputs","configurations","histories"], "all formulas, variable subsets (incl. variables not occurring), additional variables, strategies, repeated enumerations on one solver",
  "Tests compare counts for fixed formulas; splitting recursion and don't-care variables interact in many ways.",
  ["model/iter/iteration.go","model/iter/collectors.go","model/iter/split.go","model/iter/strategy.go","model/enum/enumeration.go","model/enum/enumeration_bdd.go"],
  [("recursive splitting and blocking clauses","model/iter/iteration.go"),("collectors with don't cares","model/iter/collectors.go, model/enum/enumeration.go")],
  ["enum.OnFormula*, OnSolver*, ToBddOn*, CanonicalCNF/DNF"],
  "Projected truth table as oracle.")

p("C02", "Limited or canceled enumerations are flagged and sound",
  "If a handler stops an enumeration or counting at any event, the result state says canceled, all models returned so far are genuine and distinct, and the count never exceeds the true one; if the state says success the enumeration is complete. The solver remains usable with unchanged formulas either way.",
  ["fault_sequences","inputs","configurations"], "every cancelation point and model limit, all strategies",
  "Tests use a limit or timeout on a few fixed instances without splitting.",
  ["model/iter/iteration.go","model/iter/handler.go","model/enum/enumeration.go","model/count/sat_counting.go"],
  [("rollback/commit of collected models","model/iter/collectors.go"),("handler propagation through recursion","model/iter/iteration.go")],
  ["enum.*WithConfig, count.*WithConfig"],
  "Cancel at every k-th event against the projected truth table.")

p("C03", "All model counters return the exact count",
  "Projected enumeration counting, DNNF-based counting and BDD counting all return exactly the number of models over the given variables, for every formula set, including constraints they support and variables not occurring in the formula; unsupported input is refused with an error.",
  ["inputs","configurations"], "all formula sets and variable supersets, all counting back ends and strategies, repeated counts",
  "Tests compare counts for fixed formulas.",
  ["model/count/dnnf_counting.go","model/count/sat_counting.go","dnnf/dnnf.go","bdd/operation.go"],
  [("component split and backbone simplification","model/count/dnnf_counting.go"),("DNNF counting","dnnf/"),("BDD satcount","bdd/operation.go")],
  ["count.Count, count.OnFormula, dnnf ModelCount, bdd ModelCount"],
  "Brute-force count.")

p("B01", "BDDs are canonical and implement the Boolean operations",
  "A BDD compiled from a formula under any variable order represents exactly the formula's function, and BDD operations (negation, binary connectives, restriction, quantification) represent the corresponding operation's result. On one kernel two BDDs are the same node exactly when their functions are equal.",
  ["inputs","configurations"], "all formulas and operation trees, all variable orders and heuristics, any kernel sizes",
  "Tests use few formulas, mostly two or three variables.",
  ["bdd/bdd.go","bdd/construction.go","bdd/kernel.go","bdd/operation.go","bdd/ordering.go"],
  [("unique table / apply caches","bdd/kernel.go, bdd/cache.go"),("ordering heuristics","bdd/ordering.go")],
  ["bdd.Compile*, BDD operations, Equals/Index"],
  "Truth-table oracle, canonicity checked pairwise over a generated pool.")

p("B02", "BDD queries are exact and repeatable",
  "Model counts, path counts, model enumeration, single and full models, support, variable profile, node count, CNF/DNF clause counts, node representation and extracted formulas computed from a BDD are exactly those of its function and reduced ordered diagram, and asking again in any order gives the same answer.",
  ["inputs","histories"], "all BDDs, all sequences of queries on the same kernel",
  "Tests query each BDD once in a fixed order.",
  ["bdd/bdd.go","bdd/operation.go","bdd/function.go","bdd/node.go","bdd/normalform.go","bdd/cache.go"],
  [("cached recursive queries","bdd/operation.go"),("model enumeration","bdd/function.go")],
  ["BDD.ModelCount/ModelEnumeration/PathCount*/Model*/Support/NodeCount/CNF/DNF/ToFormula"],
  "Reference ROBDD built from the truth table under the same order.")

p("B03", "BDDs survive kernel histories: growth, garbage collection, reordering",
  "Live BDDs keep representing the same functions through any history of further compilations, table growth and garbage collection, variable swaps, reordering with any method (explicit or automatic during construction) and variable blocks; afterwards queries, operations and the reported variable order stay consistent.",
  ["histories","configurations"], "all sequences of compile / operate / free / swap / reorder on kernels with small tables",
  "Tests reorder a few fixed BDDs; garbage collection and resizing only happen by accident of size.",
  ["bdd/kernel.go","bdd/reordering.go","bdd/tree.go","bdd/construction.go","bdd/cache.go"],
  [("reference counting and node table","bdd/kernel.go"),("level swapping","bdd/reordering.go")],
  ["Kernel.SwapVariables/Reorder/ActivateReorderDuringBuild, BDD operations"],
  "Stateful model-based test against truth tables with tiny initial tables.")

p("D01", "DNNF compilation yields an equivalent, decomposable, countable form",
  "The compiled DNNF of any formula is equivalent to it over its variables, its conjunctions share no variables between operands, its disjunctions are deterministic, and its model count over the original variables is exact.",
  ["inputs"], "all formulas incl. constraints and disconnected or (un)satisfiable ones",
  "Tests compare counts and equivalence for fixed formulas and check no structure.",
  ["dnnf/dnnf.go","dnnf/compiler.go","dnnf/dtree.go","sat/dnnf_solver.go"],
  [("d-tree guided compilation with caching","dnnf/")],
  ["dnnf.Compile, DNNF.Formula, ModelCount"],
  "Truth-table equivalence and structural decomposability/determinism checks.")

p("X01", "MUS and SMUS are minimal (minimum) unsatisfiable subsets",
  "For every unsatisfiable list of propositions, each MUS algorithm returns a sub-list that is unsatisfiable and loses unsatisfiability when any element is dropped, and the smallest-MUS computation returns one of minimum cardinality relative to the additional constraints; satisfiable input is reported as such. Cancelation is reported and yields no core.",
  ["inputs","fault_sequences"], "all proposition lists incl. duplicates and trivially false members, with additional constraints, all cancel points",
  "Tests use a few pigeon-hole and DIMACS instances.",
  ["explanation/mus/mus.go","explanation/smus/smus.go","np/set_cover.go"],
  [("deletion/insertion loops","explanation/mus/"),("hitting-set growth","explanation/smus/")],
  ["mus.Compute*, smus.Compute*"],
  "Brute-force minimality and minimum cardinality.")

p("R01", "Prime implicants and implicates are prime and cover the formula",
  "Prime covers contain only prime implicants/implicates of the formula, each once, and their disjunction/conjunction is equivalent to the formula, for both optimization directions and both cover kinds, of which the requested kind is complete; the minimum prime implicant is a prime implicant of minimum length, and unsatisfiable input is rejected.",
  ["inputs"], "all formulas incl. constants and constraints",
  "Tests compare a few fixed formulas.",
  ["primeimplicant/computation.go","primeimplicant/minimum_implicant.go"],
  [("max/min sub-solver loop with reductions","primeimplicant/")],
  ["primeimplicant.CoverMin/CoverMax/Minimum"],
  "Truth-table primality and coverage; brute-force minimum.")

p("T01", "Simplifications preserve equivalence and their stated result shape",
  "Every simplifier (backbone, unit propagation, distribution, factoring out, negation minimization, CNF/DNF subsumption, advanced simplifier, Quine-McCluskey) returns a formula equivalent to its input; subsumption results contain no subsumed clause/term and are a subset of the input's; Quine-McCluskey yields a DNF; rated simplifiers never return a formula rated worse than their input. Input outside a simplifier's domain is rejected with an error.",
  ["inputs","configurations"], "all formulas, all advanced-simplifier configurations",
  "Tests compare a few hand-computed outputs.",
  ["simplification/advanced.go","simplification/backbone.go","simplification/distribution.go","simplification/factor_out.go","simplification/negation_simplifier.go","simplification/subsumption.go","simplification/unit_propagation.go"],
  [("simplification steps with rating","simplification/")],
  ["simplification.*"],
  "Truth-table equivalence plus shape predicates.")

p("T02", "Substitution, anonymization and quantifier elimination are exact",
  "Substituting formulas for variables (or literals for literals) yields the function composed simultaneously with the substituted functions; anonymization is an injective consistent renaming across calls; existential/universal elimination yields the quantified function without the eliminated variables; pure expansion yields an equivalent formula without the expanded constraints. Unsupported constraints are rejected with an error.",
  ["inputs"], "all formulas and substitutions incl. swaps, self references and constraints",
  "Tests compare a few fixed outputs.",
  ["transformation/substitution.go","transformation/literal_substitution.go","transformation/anonymizer.go","transformation/qe.go","transformation/pure_expansion.go"],
  [("recursive substitution","transformation/")],
  ["transformation.*"],
  "Truth-table composition as oracle.")

p("G01", "Graphs, components and set covers reflect the formulas",
  "The constraint graph links exactly the variables that occur together in a formula, its connected components are the finest partition closed under co-occurrence, splitting formulas by component loses and duplicates none, and the hypergraph of a CNF has exactly its clauses as edges while any other input is rejected. A minimum set cover covers the universe with the fewest sets.",
  ["inputs"], "all formula lists, CNFs and set families",
  "Tests compare fixed graphs.",
  ["graph/constraint_graph.go","graph/connected_components.go","graph/hypergraph.go","np/set_cover.go"],
  [("graph generation","graph/"),("MaxSAT-based cover","np/")],
  ["graph.GenerateConstraintGraph, ComputeConnectedComponents, SplitFormulasByComponent, HypergraphFromCNF, np.MinimumSetCover"],
  "Union-find and brute-force oracles.")

p("H01", "Cancelation of any computation is reported and leaves no trace",
  "For every computation that accepts a handler (normal forms, BDD and DNNF compilation, counting, primes, MUS/SMUS, simplification, backbone, enumeration), canceling at any event returns a canceled state with a cause, and a later run on the same factory without cancelation returns a correct result. A handler that never cancels changes nothing about the result.",
  ["fault_sequences","inputs"], "every cancelation point of every handler-taking computation over generated formulas",
  "Tests cancel a few computations once and do not re-run on the same factory.",
  ["handler/handler.go","event/event.go","normalform/handler.go","bdd/handler.go","dnnf/compiler.go","primeimplicant/computation.go","simplification/advanced.go","model/count/dnnf_counting.go"],
  [("handler.State propagation","all WithHandler functions")],
  ["*WithHandler functions"],
  "Cancel at every k-th event, then re-run and compare with the truth table.")

p("K01", "Results do not depend on the factory's history",
  "Running any sequence of computations on one shared factory gives, for each computation, a correct result with the same meaning as running it on a fresh factory; intermediate caches never leak wrong results between computations, configurations or constructor modes, and computing something twice gives the same result.",
  ["histories","configurations"], "all sequences of cached computations on a shared factory over overlapping formulas",
  "Tests build a new factory per case, so cache interaction is hardly exercised.",
  ["formula/function.go","formula/predicate.go","formula/transformation.go","normalform/cnf.go","bdd/normalform.go","simplification/unit_propagation.go"],
  [("function, predicate and transformation caches","formula/")],
  ["all cached computations"],
  "Stateful sequences of computations over a shared pool with truth-table oracles and fresh-factory differential.")

p("U01", "Formula randomizer is deterministic per seed and well-formed",
  "For every configuration, two randomizers with the same seed on equal factories generate the same sequence of formulas, and every generated formula respects the configured variables, maximal depth, operand limits and zero-weight exclusions.",
  ["inputs","configurations"], "all seeds and weight/limit configurations",
  "Tests check statistics for fixed seeds.",
  ["randomizer/formula_randomizer.go"],
  [("seeded random source","randomizer/formula_randomizer.go")],
  ["randomizer.FormulaRandomizer"],
  "Twin runs plus structural predicates.")

p("V01", "Graphical representations mirror formulas and BDDs",
  "The graphical AST has one node per formula occurrence, the DAG one node per distinct sub-formula, the BDD graph one node per diagram node, with edges exactly for the operand or child relations and correct labels and terminal flags; the written DOT and Mermaid texts list exactly those nodes and edges, and a failing write is reported.",
  ["inputs"], "all formulas and BDDs",
  "Tests compare a few golden files.",
  ["formula/graphical.go","bdd/graphical.go","graphical/representation.go","graphical/dot_writer.go","graphical/mermaid_writer.go"],
  [("node/edge generation","formula/graphical.go, bdd/graphical.go"),("writers","graphical/")],
  ["GenerateGraphicalFormulaAST/DAG, bdd.GenerateGraphical, WriteDotToString, WriteMermaidToString"],
  "Reference graph reconstructed from operands; emitted text re-parsed.")

def main():
    claimed = set()
    testdir = os.path.join(ROOT, "harness")
    for fn in sorted(os.listdir(testdir)) if os.path.isdir(testdir) else []:
        if fn.endswith("_test.go"):
            claimed |= set(re.findall(r'registerProp\("([A-Z]\d{2})"', open(os.path.join(testdir, fn)).read()))
    for x in P:
        for fl in x["files"]:
            if not os.path.exists(os.path.join("/repo", fl)): print("missing file", x["id"], fl)
        assert len(x["title"]) <= 80, x["id"]
        assert len(re.findall(r'[.](?:\s|$)', x["statement"])) <= 3, x["id"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a,b in x["mech"]],
                             observe_at=x["observe"], hook_needed=None)))+"\n")
    checks, na = [], []
    for x in P:
        if x["id"] in claimed:
            checks.append(dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} quick", thorough_cmd=f"./check.sh {x['id']} thorough",
                technique="property-based testing (rapid): generated inputs/histories vs reference oracle", level="exploration",
                level_note=x["note"]+" Assurance: no counterexample in the generated cases at bounded size; trusts the harness oracles and rapid's generators.",
                evidence_file=f"evidence/{x['id']}.json"))
        else:
            na.append(dict(property=x["id"], reason="check not built yet"))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
            notes="All checks are property-based tests in harness/ driven by tools/driver.py; known findings in known_findings.txt."), f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")
main()
