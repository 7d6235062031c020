import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
L='libclingo-dl/src/'
H='libclingo-dl/clingo-dl/'
p('P01','Every reported answer satisfies all of its difference constraints',
 'Whenever the solver reports an answer, the integer values reported with it satisfy every difference constraint derived in a rule head and every constraint whose body occurrence is true, and violate every constraint whose body occurrence is false. Every variable that occurs in a constraint that has to hold in the answer has a reported value. The non-theory part of the answer follows from the program given those truth values.',
 ['programs','inputs','configurations'],'All programs with difference constraints (heads and bodies, all six relations, one or two variables, any surface form) over integers whose path sums fit the integer type, all theory and search options, every answer enumerated.',
 'The tests compare a dozen fixed programs with fixed expected answers; they do not evaluate constraints on reported values of arbitrary programs.',
 [L+'propagator.cc',L+'graph.cc',L+'parsing.cc'],
 [('incremental negative cycle detection with potentials',L+'graph.cc: Graph::add_edge / check_cycle_'),('normalization of constraints into edges',L+'propagator.cc: normalize_constraint_'),('value extraction relative to the zero vertex of the component',L+'propagator.cc: extend_model')],
 ['models passed to the model callback, extended with dl/2 terms','values returned by the assignment interface'])
p('P02','No answer is lost and none is invented',
 'For every program the set of reported answers is exactly the set of answers of the program whose difference constraints are jointly satisfiable over the integers. In particular a program is reported unsatisfiable only if no such answer exists, and no answer is reported twice with the same atoms, constraint truth values and variable values.',
 ['programs','inputs','configurations'],'All programs with difference constraints whose path sums fit the integer type, all theory and search options.',
 'Tests enumerate fixed sample programs; a wrong conflict clause, a lost relation case or a wrong weight shows only on particular graphs and orders of decisions.',
 [L+'propagator.cc',L+'graph.cc',L+'parsing.cc'],
 [('conflict clauses from negative cycles',L+'graph.cc: check_cycle_'),('propagation of false edges',L+'graph.cc: propagate_edges_, propagate_zero_, with_incoming_'),('strict (body) and non-strict (head) normalization',L+'propagator.cc: normalize_constraint_')],
 ['set of answers enumerated with zero (all) models requested'])
p('P03','Performance options never change answers or reported values',
 'Propagation mode, root level, budget, mutexes, edge sorting, decision heuristic and the solver\'s own search heuristics influence only how fast answers are found: the set of answers together with their variable values is the same for every combination. Toggling connected component computation or the solver\'s preprocessing leaves the set of answers (without values) the same.',
 ['programs','configurations'],'All programs and all pairs of option combinations, including per-thread variants; instances larger than can be enumerated by a reference.',
 'Tests run a small fixed list of mode/mutex combinations over fixed programs and do not cover sorting, heuristics, budgets, root levels, or search options in combination.',
 [L+'propagator.cc',L+'graph.cc',H+'config.hh',L+'clingo-dl.cc'],
 [('option handling',H+'config.hh: PropagatorConfig'),('mode dependent propagation',L+'graph.cc: Graph::add_edge'),('edge sorting',L+'propagator.cc: sort_edges'),('mutex clauses',L+'propagator.cc: calculate_mutexes_'),('decide',L+'propagator.cc: decide')],
 ['set of (answer, values) pairs'])
p('P04','Every nogood added to the solver is implied by the constraints',
 'Each clause handed to the solver, before or during search, is a logical consequence of the difference constraints of the program: asserting the negations of its literals always makes the difference constraints unsatisfiable. Each clause added during search is conflicting or unit at the time it is added.',
 ['programs','histories','configurations'],'All constraint sets (also large ones), all options and all sequences of decisions and backtracks during search, all clauses from preprocessing, conflict detection and propagation.',
 'Tests never look at individual clauses; an invalid clause only changes the final answers if search happens to reach the assignments it wrongly excludes.',
 [L+'graph.cc',L+'propagator.cc'],
 [('conflict and reason extraction along shortest paths',L+'graph.cc: check_cycle_, with_incoming_, propagate_edge_true_'),('mutex clauses',L+'propagator.cc: calculate_mutexes_')],
 ['clauses passed to clingo_propagate_control_add_clause and clingo_propagate_init_add_clause'])
p('P05','Each propagation mode detects the immediate conflicts it documents',
 'At every propagation fixpoint, no undecided constraint literal remains whose constraint would immediately close a conflict that the configured mode promises to detect: any negative cycle with the constraints already true in full mode (and, in the other modes, below the configured decision level with root propagation and as long as the budget lasts with a propagation budget), cycles through the zero node in zero mode, and two-constraint cycles with the constraint just added in inverse mode and every stronger mode. A stronger mode is therefore never weaker on the same assignment. Likewise, with mutexes of size up to k (and a cutoff that is not reached), of any at most k initially undecided constraints forming a negative cycle, or less than k doing so together with facts, one is false as soon as all others are true, whatever the mode.',
 ['programs','histories','configurations'],'All constraint sets, all sequences of decisions and backtracks, all modes, root levels, with and without component computation.',
 'Propagation strength is invisible in answers; the tests only check answers.',
 [L+'graph.cc',L+'propagator.cc'],
 [('forward/backward relevance search',L+'graph.cc: dijkstra_full, propagate_full_'),('zero node propagation',L+'graph.cc: propagate_zero_'),('inverse edges',L+'graph.cc: propagate_edges_'),('watch management',L+'propagator.cc: do_propagate'),('mutexes',L+'propagator.cc: calculate_mutexes_')],
 ['truth values of constraint literals at fixpoints seen by a propagator registered afterwards'])
p('P06','The variable assignment is exact at every state of the search',
 'Whenever propagation reaches a fixpoint without conflict, at any point of the search and after any number of backtracks, the constraints that are true are jointly satisfiable, the values readable for the variables satisfy all of them, and these values do not depend on the path by which the search got there: they are the canonical (least) ones determined by the set of true constraints alone. Variables without true constraints on them have no value.',
 ['programs','histories','configurations'],'All constraint sets, options and sequences of decisions, propagations, conflicts and backjumps.',
 'Tests observe only final models, so a stale potential or a missed restore after backtracking shows only if it survives to a model.',
 [L+'graph.cc',L+'propagator.cc'],
 [('potential trail and backtracking',L+'graph.cc: ensure_decision_level, backtrack, set_potential_'),('checking partial assignments',L+'propagator.cc: check'),('component zero vertices',L+'propagator.cc: lower_bound, cc_calculate_')],
 ['assignment interface read at propagation fixpoints'])
p('P07','Multi-shot solving is equivalent to solving from scratch',
 'After any history of adding and grounding program parts, changing externals, solving (also with assumptions, also interrupted after some answers), each further solve call reports exactly the answers, and values satisfying the constraints, that a fresh solver reports for the accumulated program under the same externals and assumptions. Constraints persist over steps; facts established in one step keep holding in later ones, also when options or the number of threads differ.',
 ['histories','programs','configurations'],'All sequences of ground, assign/release external, solve with and without assumptions and answer limits; all options.',
 'There is a single fixed multi-shot test with one growing program.',
 [L+'propagator.cc',L+'clingo-dl.cc',L+'graph.cc'],
 [('rebuilding thread states and repropagating facts',L+'propagator.cc: initialize_states_, check, FactState'),('incremental components',L+'propagator.cc: cc_calculate_'),('incremental edges/vertices',L+'propagator.cc: add_constraints_')],
 ['answers of every solve call of a history'])
p('P08','Parallel solving reports the same answers as sequential solving',
 'With any number of solver threads, in compete or split mode and with different options per thread, the set of answers is the one reported with a single thread, and every answer comes with variable values that satisfy its constraints. The values belong to the thread that found the answer.',
 ['programs','configurations','schedules'],'All programs, thread counts, per-thread options, and thread interleavings (sampled, not owned).',
 'Tests run one thread only.',
 [L+'propagator.cc',L+'clingo-dl.cc',L+'graph.cc'],
 [('per-thread states and facts',L+'propagator.cc: ThreadState, FactState, initialize_states_'),('thread id addressing',L+'clingo-dl.cc: assignment functions')],
 ['answers and values enumerated with several threads'])
p('P09','Optimization returns a true minimum and improves strictly until proven',
 'Minimizing a variable reports a sequence of strictly improving answers that ends with the least value the variable takes in any answer of the program, for every step factor; with an initial bound only answers within the bound are considered, and the program is unsatisfiable exactly if there is none. Each reported value is the value of the variable in that answer, and the statistics of every step show the value of the last answer so far and, if any, a lower bound that never decreases and never exceeds the optimum.',
 ['programs','configurations'],'All programs, variables, factors of at least one and initial bounds, also combined with the other options.',
 'Tests minimize a handful of fixed task instances with few factors.',
 ['app/lib/src/app.cc','app/src/main.cc',L+'propagator.cc'],
 [('bound and step size handling','app/lib/src/app.cc: Optimizer::on_model, solve, prepare_'),('retractable bounds','app/lib/src/app.cc: Optimizer::solve')],
 ['models seen by the handler during optimization','statistics'])
p('P10','Real-valued mode decides constraints over real numbers',
 'With real number support enabled, constraints with decimal constants of moderate size and precision are decided exactly as over the real numbers: the reported answers are those whose constraints are jointly satisfiable over the reals, none lost or invented, also where constraints hold with equality. The reported values satisfy the constraints up to rounding of the arithmetic, and valid inputs never abort with an internal error. Constraints occurring in bodies, which need strict semantics, are rejected.',
 ['programs','inputs','configurations'],'All programs with head constraints (or integrity constraints shifted to heads) and decimal or integer constants, all propagation options.',
 'One fixed program with one real constant is tested.',
 [L+'parsing.cc',L+'propagator.cc',L+'graph.cc',H+'theory.hh'],
 [('string to number conversion',L+'parsing.cc: parse_number'),('floating point edges',L+'propagator.cc: DLPropagator<double>')],
 ['answers and values in real mode'])
p('P11','Linear expressions and relations mean what they say',
 'A constraint whose two sides are built from integers, variables, addition, subtraction, unary minus, multiplication and division by constants and parentheses, and that simplifies to a difference of at most two variables with unit coefficients, has the meaning of the mathematical (in)equality written, in the head, in the body, and negated in the body. Rewriting the constraint to an algebraically equivalent form never changes the answers.',
 ['inputs','programs'],'All expressions over the supported operators, all six relations, all placements.',
 'About thirty fixed strings are parsed in the tests.',
 [L+'parsing.cc',L+'propagator.cc',H+'util.hh'],
 [('term evaluation',L+'parsing.cc: parse_elem, evaluate, simplify'),('relation normalization',L+'propagator.cc: normalize_constraint_, add_edges_')],
 ['answers of programs that pin the difference of the variables'])
p('P12','Malformed or unsupported constraints are rejected, never misread',
 'A constraint that is not a difference constraint (missing relation, several elements or conditions, non-linear or non-unit coefficients, more than two variables, real numbers or strict use in the wrong mode, arithmetic that is undefined or overflows) is rejected with an error message before any answer is reported. It is never silently ignored, truncated or given another meaning.',
 ['inputs','programs'],'All malformed constraints of the listed kinds in all placements; all constant arithmetic that leaves the integer range.',
 'Tests check a few malformed strings.',
 [L+'parsing.cc',L+'propagator.cc',H+'util.hh',H+'impl/util.hh'],
 [('syntax checks',L+'parsing.cc: TheoryRewriter, check_syntax, parse'),('checked arithmetic',H+'impl/util.hh: safe_*'),('edge shape check',L+'propagator.cc: add_edges_')],
 ['error status and message of rewrite, ground and solve'])
p('P13','Everything else in a program is left untouched',
 'Statements without difference constraints pass through unchanged except for the expansion of pools, so that a program without difference constraints has exactly the answers plain clingo gives it. Rewriting never modifies the statement it is given, and rewriting an already rewritten program changes nothing.',
 ['programs','inputs'],'All programs of the input language, including directives, other theories, aggregates, pools, and scripts-free files.',
 'Tests rewrite about ten statements with difference constraints.',
 [L+'parsing.cc',L+'clingo-dl.cc','app/lib/src/app.cc'],
 [('AST transformation',L+'parsing.cc: transform, TheoryRewriter, tag_terms'),('statement callback',L+'clingo-dl.cc: clingodl_rewrite_ast')],
 ['statements passed to the rewrite callback','answers of pure programs'])
p('P14','Shifting constraints preserves answers',
 'Turning on constraint shifting, which moves a difference constraint from the body of an integrity constraint negated into its head, never changes the set of answers of a program, for any relation, sign and number of constraints in the body. Rules that are no integrity constraints are left alone.',
 ['programs','configurations'],'All programs, in particular integrity constraints in all syntactic guises with zero or more difference constraints of all signs.',
 'Four fixed statements are shifted in the tests, and answers are not compared.',
 [L+'parsing.cc'],[('shift',L+'parsing.cc: shift_rule, negate_relation')],
 ['answers with and without the option','rewritten statements'])
p('P15','Text and aspif round trips preserve the program',
 'Printing the ground program as text or in the intermediate format and solving the printed program with the same tool gives the same answers and values as solving the original directly. This holds for head and body constraints alike.',
 ['programs'],'All programs with difference constraints.',
 'Only direct solving of source text is tested.',
 [L+'parsing.cc','app/src/main.cc',L+'clingo-dl.cc'],
 [('tagging of head/body atoms',L+'parsing.cc: tag_terms'),('main procedure','app/src/main.cc: App::main')],
 ['output of the command line tool'])
p('P16','The assignment interface is coherent with the reported answer',
 'For every answer, looking up a variable by symbol, reading the symbol back, iterating over all assigned variables, testing for and reading a value, and the dl terms added to the answer all describe one and the same finite mapping from the program\'s variables to values, for the thread that found the answer. Symbols that are no variables are not found; no internal variable is ever shown; asking never crashes, also before solving and after an unsatisfiable call.',
 ['programs','histories','configurations'],'All programs, symbols, indices, threads and points in time at which the interface may be called.',
 'Tests read values of fixed programs after a satisfiable call.',
 [L+'clingo-dl.cc',L+'propagator.cc','libclingo-dl/clingo-dl.h'],
 [('index mapping',L+'clingo-dl.cc: lookup_symbol, next, assignment functions'),('zero vertices',L+'propagator.cc: is_zero_, has_lower_bound')],
 ['C interface','dl/2 terms in shown symbols'])
p('P17','Options are parsed strictly and take exactly the documented effect',
 'An option value is accepted if and only if it has the documented form; any other value and any unknown key is rejected with an error that names the option. A value restricted to a thread affects exactly that thread, whatever the order in which options are given; later values override earlier ones; setting an option to its default changes nothing.',
 ['inputs','configurations'],'All option strings, keys and sequences of options.',
 'Tests set a few valid values.',
 [L+'clingo-dl.cc',H+'config.hh'],
 [('option parsers',L+'clingo-dl.cc: parse_*, set_config'),('per thread lookup',H+'config.hh: get_prop, ensure')],
 ['return value and error message of the configuration function','search behaviour under equivalent settings'])
p('P18','Statistics report what happened',
 'After each solve call the theory statistics show the number of constraint edges and connected components of the program solved, the number of mutexes added, and what each solver thread did (nothing for threads no longer there); accumulated statistics equal the sum (or the latest value for the size of the problem) of the per-step statistics over all calls so far. Collecting statistics never fails, also when the number of threads changes between calls.',
 ['programs','histories','configurations'],'All programs and multi-shot histories with statistics enabled, thread counts changing between calls.',
 'No test reads statistics.',
 [L+'propagator.cc',L+'clingo-dl.cc','app/lib/src/app.cc'],
 [('accumulate/reset',L+'propagator.cc: Statistics'),('export',L+'clingo-dl.cc: add_statistics_')],
 ['user statistics tree passed to the statistics callback'])
p('P19','Theory instances are isolated and runs are reproducible',
 'The behaviour of a theory instance (answers, order of answers, values, and search trace with a single thread) depends only on its own configuration, program and calls: it is the same on every run, and the same whether or not other instances with other options and programs were created, used or destroyed in the process before or in between.',
 ['histories','configurations','programs'],'All interleavings of calls on several instances in one process, all options.',
 'Tests never compare runs, nor use two differently configured instances together.',
 [L+'clingo-dl.cc',L+'parsing.cc',L+'propagator.cc'],
 [('propagator registration',L+'clingo-dl.cc: DLPropagatorFacade'),('static and thread local scratch data',L+'parsing.cc: simplify')],
 ['trace of decisions, clauses, answers and values'])
p('P20','The command line tool agrees with the library',
 'For every program and option combination the command line tool prints the answers, values, satisfiability status and exit code that follow from using the library with the same options; ill-formed options are rejected with an error. Minimization on the command line finds the optimum of the library.',
 ['programs','configurations'],'All programs and command lines made of supported options.',
 'The tool itself is only run on --version and two instances.',
 ['app/src/main.cc','app/lib/src/app.cc',L+'clingo-dl.cc'],
 [('application','app/src/main.cc: App'),('option registration',L+'clingo-dl.cc: clingodl_register_options')],
 ['output and exit code of the tool'])
p('P21','Variables are identified by the value of their ground term',
 'Two occurrences of a variable refer to the same variable exactly if their ground terms evaluate to the same symbol: arithmetic inside arguments is evaluated, structure, names, signs, arity and types keep variables apart, and the number zero is the only term that denotes the constant origin. Real numbers computed in arguments are compared by their first six decimals. The symbol reported for the variable is that evaluated term.',
 ['inputs','programs'],'All ground theory terms usable as variables: constants, functions, tuples, strings, nested arithmetic.',
 'Tests use constants and simple functions.',
 [L+'parsing.cc',L+'propagator.cc'],
 [('term evaluation',L+'parsing.cc: evaluate, parse_elem'),('vertex map',L+'propagator.cc: map_vertex_')],
 ['which pairs of terms are forced equal', 'symbols reported in answers'])
p('P22','No input makes the library crash, hang or corrupt memory',
 'Whatever program text, option values and sequence of interface calls it is given, the library either works or reports an error through its return value: no crash, failed assertion, undefined behaviour, memory error, leak of an exception through the C interface, or endless loop on small inputs.',
 ['inputs','histories','configurations'],'All program texts including malformed ones and all option values and call sequences allowed by the interface.',
 'Tests feed well-formed programs without memory or undefined behaviour checking.',
 [L+'clingo-dl.cc',L+'parsing.cc',L+'propagator.cc',L+'graph.cc','app/lib/src/app.cc'],
 [('exception barrier',L+'clingo-dl.cc: CLINGODL_TRY/CATCH'),('syntax checks',L+'parsing.cc: check_syntax, parse')],
 ['process status under address and undefined behaviour sanitizers','return values'])
p('P23','The Python module and application report what the library finds',
 'The Python application (python -m clingodl) finds the same answers as the library with the same options and prints for each the shown atoms and terms except those whose name starts with two underscores, followed by the value of every variable, both in sorted order. Status, exit code, accepted and rejected options, errors in programs, and statistics agree with the library, too, and so do answers, values, symbols, results, and errors if the theory is used as a Python module.',
 ['programs','configurations'],'All programs and options, with any number of files or standard input, excluding minimization, which the application does not offer.',
 'The module is only checked for syntax here.',
 ['libpyclingo-dl/clingodl/__init__.py','libpyclingo-dl/clingodl/__main__.py','libpyclingo-dl/_clingodl.c',L+'clingo-dl.cc'],
 [('printing answers','libpyclingo-dl/clingodl/__main__.py: print_model'),('solving','libpyclingo-dl/clingodl/__main__.py: main'),('theory','libpyclingo-dl/clingodl/__init__.py: ClingoDLTheory'),('compiled binding','libpyclingo-dl/_clingodl.c')],
 ['output, error output, and exit code of the application'])
p('P24','Constraints added through the backend mean the same as in program text',
 'A difference constraint that reaches the theory through the solver interface\'s backend (or another front end) has the meaning of the same constraint in program text: one in a head has to hold whenever its atom is true, one in a body holds exactly if its atom is true, whichever atoms they are attached to and however their terms were built. Terms are evaluated by the usual arithmetic (including remainder and power in arguments), and terms without value are rejected.',
 ['programs','histories','inputs'],'All programs built through the backend in one or more steps from choices, facts, defined and undefined atoms, with constraints attached to any of them and several constraints per atom.',
 'All tests use program text, where each constraint has an atom of its own and operators are limited to those of the grammar.',
 [L+'propagator.cc',L+'parsing.cc',H+'impl/util.hh'],
 [('reading theory atoms',L+'propagator.cc: add_constraints_'),('term evaluation',L+'parsing.cc: evaluate, parse_elem'),('checked arithmetic',H+'impl/util.hh: safe_*')],
 ['set of answers and values','errors returned'])
p('P25','The decision heuristic avoids or seeks violated constraints',
 'With heuristic min the theory takes every decision of a thread such that no constraint violated by the current values of that thread is added if one of the two outcomes avoids this; with heuristic max it adds the violated constraint if exactly one outcome does. Decisions about literals without constraints, and all decisions without heuristic, are left to the solver. The heuristic is asked whenever the solver decides.',
 ['programs','configurations','schedules'],'All programs, options, thread counts, and points of the search where a decision is taken.',
 'Tests compare answers, which do not depend on decisions.',
 [L+'propagator.cc',L+'graph.cc',L+'clingo-dl.cc'],
 [('decide',L+'propagator.cc: decide'),('violated edges',L+'graph.cc: edge_is_negative'),('registration',L+'clingo-dl.cc: DLPropagatorFacade')],
 ['decisions returned to the solver together with the values reported at that time'])
p('P26','All reasoning modes refer to the same answers',
 'Optimization (whatever algorithm finds the optimum), enumeration of optimal answers or answers within a bound, brave and cautious consequences, and projection give exactly the results determined by the set of all answers of the program with its difference constraints, each optimal answer or projection being reported once. Domain heuristics and enumeration algorithms do not affect the set of answers. Values reported with an answer satisfy the constraints in all of these modes.',
 ['programs','configurations','schedules'],'All programs with optimization, projection, or heuristic statements, all reasoning modes of the solver, options, and thread counts.',
 'Tests only enumerate answers.',
 [L+'propagator.cc',L+'graph.cc',L+'clingo-dl.cc'],
 [('check and propagate',L+'propagator.cc: propagate, check'),('undo',L+'propagator.cc: undo'),('clauses added once for all',L+'propagator.cc: normalize_constraint, add_edges')],
 ['results of the reasoning modes, costs, values reported with answers'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,x['id']
    n=len(re.findall(r'[.!?](\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(P))
