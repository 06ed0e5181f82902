"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(),
                  mech=mech, observe=observe, state=state, technique=technique, note=note))

T_REF = ('runtime monitor: the real code runs on generated programs/data while every result is compared with an '
         'independently written reference evaluator')

prop('C01', 'Forward chaining computes exactly the least fixpoint',
     'For every range-restricted program, data set and semiring whose least fixpoint converges, the forward-chaining solver stops with exactly the items of that fixpoint, each with the value obtained by summing the products of all rule instances (every instance counted exactly once, also when one rule uses the same item several times), within the convergence tolerance. Queries against the solver return exactly the matching items with those values.',
     'programs inputs configurations',
     'all range-restricted programs with finitely many items (recursion, self-joins, diagonals, duplicate rules, constants, comparisons, arithmetic, structured terms), all input charts, the real, Boolean, min-plus and max-times semirings, data loaded with the program or separately, all query modes',
     'The suite checks a few hand-solved programs; double counting, missed joins, stale indexes and early stopping depend on combinations of overlapping subgoals, item arrival order and values that it does not sample.',
     'dyna/execute/solver.py dyna/execute/base.py dyna/program.py',
     [('delta propagation with old/new split by subgoal position', 'dyna/execute/solver.py drive_rules/_forward_chaining'), ('chart indexes by bound positions', 'dyna/execute/solver.py Chart'), ('agenda with change buffer', 'dyna/execute/solver.py update')],
     ['chart after solving', 'solution program', 'query answers'], technique=T_REF)

prop('C02', 'Solving with non-ground items agrees with all their ground instances',
     'For every program and data set, including rules and facts that leave variables unbound, the solver for non-ground items computes a chart whose value at every ground atom (the sum over the items that cover it) equals the least fixpoint, counting a subgoal variable that stays free with infinite multiplicity. Queries return the same values restricted to the query.',
     'programs inputs configurations',
     'all programs whose fixpoint has finitely many (possibly non-ground) items, all input charts with ground and non-ground facts, four semirings',
     'Tests compare a handful of charts literally; whether overlapping non-ground items are combined once per instance for arbitrary overlaps is not something samples settle.',
     'dyna/execute/solver2.py dyna/execute/base.py dyna/program.py',
     [('subgoal linearization before driving', 'dyna/program.py linearize'), ('canonical interning of items', 'dyna/execute/solver2.py update'), ('infinite multiplicity of dropped variables', 'dyna/program.py multiple')],
     ['chart after solving', 'query answers'], technique=T_REF)

prop('C03', 'Goal-directed SCC evaluation returns the same outputs',
     'Goal-directed two-pass evaluation, with or without magic-set demand, gives every declared output item the same value as plain evaluation of the whole program on the same data, and never reports an output item with a value it does not have.',
     'programs inputs configurations',
     'all programs with declared inputs and outputs and finite charts (cyclic, mutually recursive, non-range-restricted, partially bound outputs), all data, with and without magic, both underlying solvers',
     'The priority/pruning computed in the first pass depends on the dependency structure of program and data together; the tests sample a few grammars and counters.',
     'dyna/program.py dyna/util/bucket_queue.py dyna/execute/solver.py dyna/execute/solver2.py',
     [('SCC index as agenda priority', 'dyna/program.py scc_solver'), ('demand guards', 'dyna/program.py magic_templates')],
     ['values of output queries on the returned solver'], technique=T_REF)

prop('C04', 'All bottom-up evaluation strategies agree',
     'Naive forward chaining, semi-naive evaluation, agenda-based evaluation and the two solvers give the same value to every item of a program whose fixpoint they reach, and repeatedly applying the consequence operator for n rounds equals the sum over derivations of height at most n.',
     'programs inputs configurations',
     'all programs with finite fixpoints reached in finitely many rounds (also with non-ground facts), all data, several semirings, bounded numbers of rounds',
     'The suite checks each strategy on separate examples; agreement for every program needs the delta rules of each strategy to count each rule instance exactly once.',
     'dyna/program.py dyna/term.py',
     [('naive iteration', 'dyna/program.py fc/_fc/step'), ('semi-naive delta', 'dyna/program.py seminaive_update'), ('agenda', 'dyna/program.py agenda'), ('product streams', 'dyna/term.py Stream/ResultStream')],
     ['resulting chart programs'], technique=T_REF)

prop('C05', 'Newton and linear solving reach the least solution',
     'Newton iteration and the linear solver, when they report a solution of a program, report its least solution: the same chart as plain evaluation.',
     'programs inputs',
     'linear and non-linear recursive programs with convergent least fixpoints, ground and non-ground items, built-ins, cyclic and acyclic dependency graphs, several semirings',
     'Existing tests run a few numeric systems; the closed-form elimination has to be right for every dependency graph and the linearization for every rule shape.',
     'dyna/execute/linear.py dyna/program.py dyna/util/graphs.py',
     [('matrix closure per strongly connected component', 'dyna/execute/linear.py'), ('program linearization', 'dyna/program.py _newton')],
     ['resulting chart programs'], technique=T_REF)

prop('C06', 'Results do not depend on order, priorities or call history',
     'The solution of a program does not depend on the order of rules, subgoals or data, the priority function, the agenda data structure, or whether data arrive in one batch or as several incremental updates with solver calls in between; running a solver again without new data changes nothing, and loading more data gives the same chart as starting over with all of it.',
     'histories schedules programs inputs',
     'all permutations and priority functions, FIFO/heap/bucket agendas, all splits of the data into increments, interleaved with queries and re-runs, for both solvers',
     'Tests use one order; update scheduling, index maintenance and the change buffer are only exercised by other histories.',
     'dyna/execute/solver.py dyna/execute/solver2.py dyna/execute/base.py dyna/util/bucket_queue.py',
     [('agenda and change buffer', 'dyna/execute/solver.py update'), ('incremental index update', 'dyna/execute/solver.py _update_index'), ('late rule initialization', 'dyna/execute/base.py init_rule')],
     ['chart after every step of a history'], technique='runtime monitor: randomized histories (orders, priorities, agenda types, increments, re-runs) of the real solvers, each state compared with the reference evaluator')

prop('C07', 'Unification is correct and leaves no trace',
     'Unifying two terms succeeds exactly when they have a common instance, makes them equal with a most general binding while it is in effect, and restores every variable binding when the enumeration ends, whether by exhaustion, failure, abandoning it early or an exception in the consumer. The same holds for joins and lookups built on it: after a query is finished or abandoned, no variable of the query or of the program stays bound.',
     'inputs histories fault_sequences',
     'all pairs of terms (shared variables, repeated variables, nested and cyclic occurrences, constants of all kinds, already-bound variables), nested unifications, early exits and exceptions at every yield point',
     'Tests check a few unifications; leaks show up only for particular failure points inside nested generators.',
     'dyna/term.py dyna/program.py dyna/execute/base.py',
     [('trail/undo in generator finalizers', 'dyna/term.py unify'), ('rule freshening around lookups', 'dyna/term.py FreshCache; dyna/program.py lookup')],
     ['bindings of all variables before, during and after'], technique='runtime monitor: binding-state recorder around every unification/join/lookup, with an independent unifier as oracle and injected exceptions/early exits')

prop('C08', 'Substitution, covering, equality and renaming of terms are exact',
     'Most-general unifiers, one-way matching (covering), sameness up to renaming, canonical forms and fresh copies of terms agree with their set-of-instances meaning for all terms: a fresh copy is a variant sharing no variables, canonical forms are equal exactly for variants, and one term covers another exactly when all instances of the second are instances of the first.',
     'inputs', 'all pairs of finite terms with shared, repeated and nested variables and constants of all kinds, including rules and products of terms',
     'Corner cases (repeated or shared variables, bound variables, occurs check) are combinatorial.',
     'dyna/term.py dyna/rule.py',
     [('mgu / cover on substitutions', 'dyna/term.py Subst'), ('canonicalize / fresh', 'dyna/term.py')],
     ['return values'], technique='runtime monitor: differential check of each operation against an independent term library')

prop('C09', 'Generalization over-approximates and partitions stay disjoint',
     'The generalization of two terms covers both, and nothing more specific does. A disjoint estimate built from any sequence of terms always covers every term added, its members never overlap, and every added term is found in exactly one member; sets of most-general terms cover what was added and contain no redundant member.',
     'inputs histories', 'all sequences of insertions of terms with shared structure, repeated variables, diagonals and constants',
     'Partition invariants must survive every insertion order; tests insert a few fixed patterns.',
     'dyna/term.py',
     [('anti-unification', 'dyna/term.py generalizer'), ('disjoint partition', 'dyna/term.py DisjointEstimate'), ('most general set', 'dyna/term.py MostGeneralSet')],
     ['members after every insertion'], technique='runtime monitor: invariant checker over insertion histories with an independent matcher as oracle')

prop('C10', 'Sorting terms and programs is deterministic and order-independent',
     'The order used to sort terms, rules and programs is a consistent total order (irreflexive, antisymmetric, transitive) on ground terms, so sorting the same items gives the same sequence whatever order they start in.',
     'inputs', 'all collections of ground terms mixing numbers, strings, atoms and structures, and their permutations',
     'Order axioms quantify over triples of mixed-type terms.',
     'dyna/term.py dyna/program.py', [('term comparison', 'dyna/term.py lt/__lt__'), ('program sort', 'dyna/program.py sort')],
     ['sorted sequences'], technique='runtime monitor: order-axiom checker over generated triples and permutations')

prop('C11', 'Printing and re-parsing gives back the same program',
     'The plain-text form of every program, rule and term parses back to an equal program, rule or term, including its declared inputs and outputs, operators, lists, strings and numbers.',
     'inputs programs', 'all terms, rules and programs expressible in the language (operators of every precedence, nested and negative numbers, quoted names, strings with special characters, lists with tails, comparisons, variables)',
     'The round trip has to hold for every nesting of operators; tests try a few dozen expressions.',
     'dyna/pretty.py dyna/syntax.py dyna/program.py dyna/term.py',
     [('precedence-aware printing', 'dyna/pretty.py'), ('grammar', 'dyna/syntax.py')],
     ['re-parsed structure'], technique='runtime monitor: round-trip checker comparing the re-parsed structure with an independent structural model')

prop('C12', 'Parsing follows the documented precedence and scoping',
     'Parsing source text yields the structure given by the operator precedences and associativities: text written with minimal parentheses, with full parentheses, with arbitrary white space and with comments denotes the same program. Variables with the same name are shared within a rule and never across rules, and every underscore is distinct.',
     'inputs', 'all expressions and rules of the grammar in all spellings',
     'Ambiguities and tokenization accidents appear only for particular adjacent tokens.',
     'dyna/syntax.py', [('grammar and post-processing', 'dyna/syntax.py')],
     ['parsed structure'], technique='runtime monitor: generated sources from an independent printer, parsed structure compared with the intended one')

prop('C13', 'Built-in relations are sound and complete in every supported mode',
     'Whenever a built-in (arithmetic, comparison, equality, ranges, list and string operations) runs in some mode, the bindings it yields are exactly the solutions of the relation in that mode, each once, with the mathematical result; in unsupported modes it is delayed rather than answered wrongly, and the outcome does not depend on the position of the built-in in the rule body when it can run.',
     'inputs configurations', 'all built-ins, all instantiation patterns of their arguments, all small numeric, string and term arguments',
     'The product of built-ins, modes and boundary values is not sampled by tests.',
     'dyna/builtin.py dyna/program.py dyna/execute/solver.py dyna/execute/solver2.py',
     [('mode table', 'dyna/builtin.py Builtins'), ('delay when not ready', 'dyna/program.py lookup')],
     ['bindings yielded', 'delayed or not'], technique='runtime monitor: mode-by-mode comparison of yielded bindings with brute-force enumeration of the relation')

prop('C14', 'Program and rule equality is exact up to renaming and reordering',
     'Two rules (programs) compare equal exactly when they are identical up to variable renaming, subgoal order and rule order, with multiplicities; equal rules and programs have equal hashes, and comparing never changes its arguments. Alignments of equal programs pair every rule with an equal rule, one to one.',
     'programs inputs', 'all pairs of rules and programs, shuffled/renamed copies and near-miss mutants (one variable merged, one argument swapped, one duplicate dropped)',
     'Equality modulo commutative matching is a search problem; tests check few positives and fewer near misses.',
     'dyna/rule.py dyna/program.py dyna/term.py',
     [('commutative matching', 'dyna/term.py Product; dyna/rule.py same'), ('signature hashing', 'dyna/rule.py signature'), ('bucket alignment', 'dyna/program.py _check_bucket/align')],
     ['comparison results and hashes'], technique='runtime monitor: constructed equal pairs and near-miss mutants judged by an independent isomorphism test')

prop('C15', 'Cached views never go stale under program edits',
     'After any sequence of edits to a program (adding, updating, removing rules) interleaved with reads, every read (lookup, query, equality, hash, degree, symbols, pruned versions, evaluation) answers as it would on a program freshly built from the current rules.',
     'histories', 'all interleavings of rule additions, constant-folding updates, removals and cached reads',
     'Caches are invalidated by hand at each mutation; only particular read-edit-read orders expose a stale one.',
     'dyna/program.py dyna/util/util.py',
     [('manual cache invalidation', 'dyna/program.py _invalidate_caches/_add_rule/pop'), ('head index', 'dyna/program.py f2r'), ('constant-folding buckets', 'dyna/program.py _buckets')],
     ['every cached read after every edit'], technique='runtime monitor: model-based history checker; after each edit all reads are compared with a fresh program built from the same rules')

prop('C16', 'Constant folding, lifting and program distance preserve meaning',
     'Constant folding, sorting, renaming and adding programs preserve the meaning of a program: the folded program gives the same value to every item. The distance between two charts is the largest difference of any item value (infinite when different items are present), and programs are reported equal exactly when that distance is within the tolerance.',
     'programs inputs configurations', 'all programs with constants in any position, duplicate and permuted rules, in several semirings; all pairs of charts',
     'Merging rules by a canonical skeleton must be right for every body order and repetition.',
     'dyna/program.py', [('skeleton merge', 'dyna/program.py ConstantFolded'), ('metric', 'dyna/program.py metric')],
     ['values before and after', 'distances'], technique=T_REF)

prop('C17', 'Unfolding preserves the meaning of a program',
     'Inlining any inlinable subgoal of any rule, once or repeatedly, gives a program with the same value for every item on every input.',
     'programs inputs histories', 'all programs, all rule/subgoal positions accepted by the transformation, sequences of unfolds, all input data, several semirings',
     'Variable capture, lost variables and multiplicity corrections depend on the particular pair of rules.',
     'dyna/transform/unfold.py dyna/program.py', [('resolution of a subgoal against all defining rules', 'dyna/transform/unfold.py')],
     ['values of all items before and after, on random data'], technique=T_REF)

prop('C18', 'Accepted folds preserve the meaning of a program',
     'Every fold that the system accepts as safe (reversible folds, folds against definitions justified by its safety measure, hooks and newly introduced definitions) gives a program with the same value for every item of the original program on every input.',
     'programs inputs histories', 'all programs, all fold proposals the system enumerates and accepts, chains of definition, unfold and fold steps, all data',
     'Unsound acceptance (e.g. a rule folded by itself) needs particular recursive shapes that tests do not enumerate.',
     'dyna/transform/fold.py dyna/rule.py dyna/transform/measure.py dyna/program.py',
     [('reversibility check', 'dyna/transform/fold.py safe_by_rev/partially_safe'), ('variable-locality check', 'dyna/rule.py folds_by'), ('safety measure', 'dyna/transform/measure.py')],
     ['values before and after, on random data'], technique=T_REF)

prop('C19', 'Speculation (slash) preserves the meaning of a program',
     'Slashing out an item pattern at any legal choice of positions gives a program in which every item of the original program keeps its value on every input.',
     'programs inputs configurations', 'all programs, slash patterns and position maps accepted by the transformation, all data',
     'Correctness depends on how the pattern overlaps with rule heads, chosen subgoals and other predicates.',
     'dyna/transform/slash.py dyna/analyze/coarse_graph.py dyna/builtin.py', [('six rule families', 'dyna/transform/slash.py Slash')],
     ['values before and after, on random data'], technique=T_REF)

prop('C20', 'Left-corner transformation preserves the meaning of a program',
     'The left-corner transformation at any legal choice of positions and pattern gives a program in which every item of the original program keeps its value on every input.',
     'programs inputs configurations', 'all programs and position maps accepted by the transformation, all data',
     'Same as for speculation.', 'dyna/transform/lct.py dyna/analyze/coarse_graph.py', [('rule families', 'dyna/transform/lct.py LCT')],
     ['values before and after, on random data'], technique=T_REF)

prop('C21', 'Rule elimination, linearization, binarization and hooks preserve meaning',
     'Eliminating a rule that does not define an output, splitting overlapping subgoals, binarizing and hook-style factoring give programs with the same value for every output item on every input, and the results have the promised shape (no rule with overlapping subgoals, no rule with more than two subgoals).',
     'programs inputs', 'all programs and rule choices accepted by the transformation (rules used several times, non-range-restricted rules, overlapping heads), all data',
     'Counting each use of the eliminated rule exactly once depends on how its head overlaps with subgoals of every other rule, itself included.',
     'dyna/transform/rule_elimination.py dyna/program.py', [('linear elimination', 'dyna/transform/rule_elimination.py'), ('linearize/binarize/hook', 'dyna/program.py')],
     ['values of outputs before and after, on random data'], technique=T_REF)

prop('C22', 'Pruning never changes an output',
     'Removing or specializing rules by reachability or type information (all pruning levels) leaves the value of every output item unchanged on every input allowed by the declarations, also when pruning steps are repeated or combined.',
     'programs inputs configurations', 'all programs with input/output declarations (partial patterns, constants, overlapping patterns), all data matching the input declarations, all pruning variants',
     'Soundness of the analysis must hold for every overlap of patterns; tests compare fixed programs.',
     'dyna/analyze/dead.py dyna/analyze/types.py dyna/util/graphs.py dyna/program.py', [('coarse reachability', 'dyna/analyze/dead.py'), ('usefulness analysis', 'dyna/program.py _useful')],
     ['values of outputs before and after, on random data'], technique=T_REF)

prop('C23', 'Abbreviation preserves output values',
     'Specializing a program by its inferred types (abbreviation) leaves the value of every output item unchanged on every input satisfying the input types.',
     'programs inputs', 'all programs and disjoint inferred types accepted by the transformation, all data, several semirings',
     'Dropped constant/free arguments and multiplicity corrections depend on the combination of types and rules.',
     'dyna/analyze/abbreviate.py dyna/analyze/types.py dyna/analyze/rewrites.py', [('rule instantiation by types', 'dyna/analyze/abbreviate.py')],
     ['values of outputs before and after, on random data'], technique=T_REF)

prop('C24', 'Magic templates keep every demanded answer and add none',
     'In the Boolean semiring the magic-templates program derives exactly the same output items as the original program on every input; any other item of the original program it derives is also derived by the original.',
     'programs inputs', 'all programs with declared outputs (bound, partially bound, free), all data',
     'Completeness requires every demanded subgoal to be propagated for every body ordering.',
     'dyna/program.py', [('demand rules and reordering', 'dyna/program.py magic_templates')],
     ['derived items before and after'], technique=T_REF)

prop('C25', 'Normal-form rewrites preserve meaning',
     'Normalizing unifications, resolving unification constraints, running built-ins at compile time and Boolean abstraction preserve the value of every item (for the Boolean abstraction: whether it is derivable; variables that occur only in built-ins and stay free are not counted); normalization is idempotent and leaves only flat subgoals and shallow equations.',
     'programs inputs', 'all programs with equalities, nested terms and built-ins, all data',
     'Each rewrite must be right for all nestings and binding orders.',
     'dyna/program.py dyna/term.py', [('normalize_unification2 / snap_unifications / run_builtins', 'dyna/program.py')],
     ['values before and after'], technique=T_REF)

prop('C26', 'Program optimization returns an equivalent, no costlier program',
     'Every program visited by the transformation search, and the best program returned, gives every output the same value as the source program on every input; the reported best cost is the cost of the returned program (by default the numbers of variables of its rules, largest first) and never worse than the start.',
     'programs inputs histories', 'all programs, search configurations (agenda, beam, graph kinds, fold, unfold, elimination and reversible-fold actions; the experimental speculation and left-corner actions are left out), all data',
     'Search composes many transformations; tests check costs of a few known programs.',
     'dyna/search/search.py dyna/search/old.py dyna/programs.py', [('agenda-based search', 'dyna/search/search.py')],
     ['values of outputs, costs'], technique=T_REF)

prop('C27', 'Type analysis covers everything that can be derived',
     'For every input consistent with the declared input types, every item derived by the program is covered by the inferred types (with the constraints interpreted on that input), and the useful items cover everything that contributes to an output; restricting the types to a query covers the matching items.',
     'programs inputs configurations', 'all programs, type declarations and constraints, depth limits, both analysis strategies, all data',
     'Soundness over all inputs; tests compare inferred types literally.',
     'dyna/analyze/types.py dyna/analyze/rewrites.py dyna/propagate.py', [('abstract forward chaining', 'dyna/analyze/types.py'), ('truncation and relaxation', 'dyna/analyze/types.py truncate_term/_relax')],
     ['inferred types against derived items'], technique='runtime monitor: items observed in concrete executions are checked for membership in the inferred types')

prop('C28', 'Constraint propagation never loses a solution',
     'Propagating constraints through a rewrite theory never turns a satisfiable set of constraints into failure, keeps every solution of the set, adds only implied constraints, gives a result independent of constraint order, and does nothing more when run again; intersection and covering of constrained types respect the sets they denote.',
     'inputs configurations', 'all constraint sets and rewrite theories (implications, equalities, failures) over small finite models',
     'Propagation runs to a fixpoint with merging of variables; tests check fixed theories.',
     'dyna/propagate.py dyna/analyze/rewrites.py', [('fixpoint propagation', 'dyna/propagate.py'), ('rewrites on types', 'dyna/analyze/rewrites.py')],
     ['constraint sets before and after, models'], technique='runtime monitor: every propagation step judged by brute-force enumeration of finite models of the theory')

prop('C29', 'Coarse dependency analysis is sound',
     'Whenever an item contributes to another in some execution, the coarse dependency graph has a path between their nodes; programs reported acyclic have no item depending on itself, rules reported input-independent never use an input, and solving component by component gives the same outputs.',
     'programs inputs', 'all programs with declarations, all data',
     'Soundness over all executions; tests compare fixed graphs.',
     'dyna/analyze/coarse_graph.py dyna/term.py dyna/util/graphs.py', [('pattern partition', 'dyna/analyze/coarse_graph.py CoarseGraph')],
     ['edges against concrete rule instances'], technique='runtime monitor: ground rule instances observed in executions are checked against the static graph')

prop('C30', 'Cost bounds bound the observed work',
     'The reported size and running-time bounds of a program, evaluated at the sizes of the actual input relations, are at least the number of distinct items of each type and rule instances that evaluation on that input can produce, and the degree of a rule bounds the exponent of the number of its ground instances.',
     'programs inputs', 'all programs with typed inputs, all data',
     'A bound that is too small on some data cannot be seen by comparing formulas for fixed programs.',
     'dyna/analyze/runtime.py dyna/rule.py dyna/program.py', [('size bounds', 'dyna/analyze/runtime.py'), ('degree', 'dyna/rule.py RuleAnalyzer_')],
     ['counts of items and rule instances against evaluated bounds'], technique='runtime monitor: counters of derived items and rule instances compared with the reported bounds')

prop('C31', 'Derivation enumeration is complete, duplicate-free and value-correct',
     'Enumerating derivations (bottom-up to any height, or top-down) yields each valid derivation exactly once and nothing else; each derivation is well-formed, its value is the product of its leaves, and for programs with finitely many derivations the values sum to the value of the item.',
     'programs inputs', 'all programs with few derivations, all heights, all enumeration strategies',
     'Exactly-once over all trees needs counting against an independent enumeration.',
     'dyna/derivations.py dyna/program.py', [('naive/semi-naive/agenda/SLD enumeration', 'dyna/derivations.py')],
     ['multiset of derivations and values'], technique='runtime monitor: exactly-once/conservation checker over the enumerated derivations against an independent enumerator')

prop('C32', 'Derivation mappings between transformed programs are value-preserving bijections',
     'Mapping a derivation through unfold and safe fold steps, or along a chain of them, gives a valid derivation of the same item in the target program with the same value, different derivations map to different ones, mapping back returns the original, and all target derivations are reached.',
     'programs inputs histories', 'all programs and chains of unfold and safe fold steps, all derivations of bounded size',
     'Bijection over all derivations; tests check particular programs.',
     'dyna/derivations.py dyna/transform/unfold.py dyna/transform/fold.py dyna/program.py',
     [('transform/untransform', 'dyna/transform/unfold.py dyna/transform/fold.py'), ('path through the transformation tree', 'dyna/program.py Transform')],
     ['mapped derivations'], technique='runtime monitor: bijection and conservation checker over enumerated derivations of both programs')

prop('C33', 'The fold/unfold safety measure accepts only equivalent programs',
     'Whenever the measure-based check (symbolic or unit) declares a program reached by define, unfold and fold steps to be safe, that program has the same value for every original item on every input; the unit check never accepts what the symbolic check rejects.',
     'programs inputs histories', 'all transformation sequences from generated programs, including folds by definitions from earlier program versions and self-folds',
     'An unsafe sequence accepted by the checker silently changes program meaning; tests contain a few known unsafe ones.',
     'dyna/transform/measure.py dyna/transform/fold.py dyna/transform/unfold.py', [('symbolic measure', 'dyna/transform/measure.py')],
     ['verdict against values on random data'], technique=T_REF)

prop('C34', 'The bucket queue is a faithful priority queue',
     'For every sequence of insertions, re-prioritizations and pops, the bucket queue holds exactly the items inserted and not yet popped, always pops an item of minimum current priority, and reports emptiness and size correctly.',
     'histories', 'all operation sequences over small keys and priorities, including decreasing priorities and re-insertion after popping',
     'History-dependent; the tests have a few scripted sequences.',
     'dyna/util/bucket_queue.py', [('buckets with moving minimum', 'dyna/util/bucket_queue.py')],
     ['every operation result'], technique='runtime monitor: model-based history checker against a dictionary model')

prop('C35', 'Graph algorithms are exact',
     'Strongly connected components, topological order, condensation, transitive closure and hypergraph reachability agree with their definitions on every graph.',
     'inputs', 'all small directed graphs and hypergraphs, with self-loops, isolated and unreachable nodes, all roots',
     'Tests use fixed graphs.', 'dyna/util/graphs.py', [('tarjan', 'dyna/util/graphs.py tarjan'), ('reachability', 'dyna/util/graphs.py Hypergraph')],
     ['returned components, orders, closures'], technique='runtime monitor: comparison with brute-force definitions on generated graphs')

prop('C36', 'Pattern matching of rule bodies enumerates exactly the matches',
     'Covering one product of subgoals by part of another enumerates, up to renaming, exactly the ways to choose distinct subgoals that are instances of the pattern under one substitution, each with the correct leftover subgoals.',
     'inputs', 'all pairs of small subgoal products with repeated predicates and variables',
     'A combinatorial search; tests check few instances.', 'dyna/term.py dyna/rule.py', [('commutative covering', 'dyna/term.py Product.covers')],
     ['enumerated matches'], technique='runtime monitor: enumerated matches compared with brute-force enumeration')

prop('C37', 'Delayed evaluation commutes with supplying the data',
     'Solving a program while its inputs are left symbolic gives rules over the inputs which, evaluated on any data, give the same values as evaluating the original program on that data; the same holds for querying and for instantiating a program against its chart.',
     'programs inputs', 'all non-recursive-through-input programs with finite symbolic fixpoints, with delayed comparisons and arithmetic, all data',
     'Partial evaluation must be right for all data; tests compare symbolic output literally.',
     'dyna/program.py dyna/term.py dyna/builtin.py', [('delayed constraints in lookup', 'dyna/program.py lookup'), ('step over symbolic charts', 'dyna/program.py step/__setitem__')],
     ['values after supplying data'], technique=T_REF)

prop('C38', 'Clause measures bound derivation sizes',
     'For every program reached by safe unfold and fold steps, the interval the measure assigns to a derivation contains the size of the corresponding derivation of the original program (the number of rule applications for the unit measure, any positive weighting of the original rules for the symbolic one); an equal program with its rules in another order has the same measures, aligned; and the size assumed for untouched subgoals is never more than that of an actual derivation of them.',
     'programs histories', 'all programs and chains of unfold and fold steps, every derivation of bounded height, all positive weightings of the rules',
     'This is the invariant on which every fold and unfold safety verdict rests; the suite only looks at final verdicts of scripted chains.',
     'dyna/transform/measure.py dyna/transform/fold.py dyna/transform/unfold.py', [('interval measures per rule', 'dyna/transform/measure.py'), ('alignment of equal programs', 'dyna/program.py align')],
     ['interval of each mapped derivation against the size of the original'], technique='runtime monitor: conservation checker; each derivation is mapped through the history and its measure compared with the size counted on the original')

prop('C39', 'Fold search undoes unfolding, and program collections are exact',
     'Whenever a subgoal is unfolded without instantiating anything, the original program is among the folds proposed for the result, is accepted as safe, and is found by the search for reversible folds. Enumerations of steps (unfolds with filters, folds, hooks, prunings, speculation and left-corner positions) of a program or collection are exactly the single steps of the members; deduplication, grouping, membership, sorting, filtering, slicing and sums of collections keep exactly the right programs; and the graph of a transformation history has exactly the programs and steps of that history, of which tidying keeps exactly what can be derived from correct programs.',
     'programs histories', 'all programs, all subgoals unfolded, all collections of equal and different programs, all histories of define, unfold, fold and prune steps',
     'The optimizer only finds what these enumerations propose, so a missing proposal is silent; the suite checks a few scripted folds and counts.',
     'dyna/programs.py dyna/program.py dyna/rule.py dyna/transform/fold.py', [('fold proposals by covering rule bodies', 'dyna/program.py fold_proposals, dyna/rule.py folds_by'), ('reversible fold search', 'dyna/transform/fold.py fold_r_S'), ('history graph', 'dyna/programs.py ProgramGraph')],
     ['the enumerated programs and their order', 'graph nodes and edges'], technique='runtime monitor: inverse-operation checker (fold after unfold) and model-based checker of collections, with an independent program isomorphism')

prop('C40', 'Speculation maps derivations one to one, keeping item, value and measure',
     'The derivation mapping of a slashed program sends every derivation of the original program to a correct derivation of the slashed one that proves the same item with the same leaves and value and has exactly the same unit and symbolic measure; different derivations have different images, and every derivation of an original item in the slashed program is an image. For a left-corner program the same holds of every derivation the mapping accepts.',
     'programs derivations', 'all programs, divisors and slash positions, every derivation',
     'The mapping is what makes the speculative transformation auditable and its measure exact; the suite maps the derivations of a handful of propositional programs.',
     'dyna/transform/slash.py dyna/transform/lct.py dyna/transform/measure.py dyna/derivations.py', [('spine rebuilding', 'dyna/transform/slash.py _transform_node'), ('spine reversal', 'dyna/transform/lct.py transform'), ('measures of the rule families', 'dyna/transform/slash.py, dyna/transform/lct.py compute_measure')],
     ['each image, its item, leaves, value and measure', 'the set of images'], technique='runtime monitor: proof checker and bijection checker over enumerated derivations of source and target')


def main():
    have = {f[6:9].upper() for f in os.listdir(os.path.join(V, 'checks')) if f.startswith('check_c') and f.endswith('.py')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} --tier quick",
                           'thorough_cmd': f"./check {p['id']} --tier thorough",
                           'technique': p['technique'], 'level': 'exploration',
                           'level_note': p['note'] or 'randomized executions observed by an independent oracle; bounds and coverage counters in the evidence file'})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no sound monitor built yet')})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, fh, indent=1)
    print(len(P), 'properties', len(checks), 'checks; not applicable:', [x['property'] for x in na])

NA = {}

if __name__ == '__main__':
    main()
