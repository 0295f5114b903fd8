"""Generates /verif/properties.jsonl (kept as source so the text is editable in one place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


O = "opt_einsum/"

prop("C01", "contract computes the Einstein summation, however it is optimised",
     "contract(...) returns exactly the array that the Einstein-summation definition gives: each output element is the "
     "sum, over all values of the labels that are not in the output, of the product of the operands' elements, where a "
     "dimension of size 1 broadcasts against any other size. This holds for every named optimizer, optimizer object, explicit complete path "
     "(pairwise or not), optimize=False, use_blas on or off, every memory limit that yields a path, repeated labels, labels shared by "
     "many operands, empty dimensions, scalars, and any label characters.",
     ["inputs", "configurations"],
     "all equations, shapes, values, and all choices of optimize, use_blas, memory_limit",
     "The tests compare a few dozen fixed equations with np.einsum at default sizes; a step that is wrong only for one pattern of kept, "
     "summed, repeated or size-1 labels and one contraction order is not among them.",
     [O + "contract.py", O + "blas.py", O + "parser.py", O + "helpers.py"],
     [("operands", "the list of intermediate arrays", "contract._core_contract"),
      ("contraction_list", "steps to execute", "contract.contract_path")],
     [("step execution by tensordot+transpose or einsum", "contract._core_contract"),
      ("which labels survive a step", "helpers.find_contraction"), ("BLAS eligibility", "blas.can_blas")],
     ["return value of contract"])

prop("C02", "Every path finder returns a complete, well-formed path",
     "For every contraction, every built-in optimizer (by name or as an object) returns a path: a sequence of steps, each naming distinct positions of the "
     "current operand list, which are removed and replaced by one result appended at the end, such that all inputs are consumed and exactly "
     "one operand remains. Without a memory limit no step combines more than two operands, and equal, scalar, disconnected or hyper-connected operands make no difference to this.",
     ["inputs", "configurations"],
     "all index structures and sizes with two or more operands, all finders and their options, all memory limits",
     "Tests check a handful of paths literally; a finder that drops or repeats an operand only for duplicated index sets, scalars or disconnected parts passes them.",
     [O + "paths.py", O + "path_random.py", O + "contract.py"],
     [("remaining", "operands not yet contracted", "paths"), ("ssa_path", "path in single-assignment ids", "paths, path_random")],
     [("SSA to linear conversion", "paths.ssa_to_linear"), ("duplicate index sets merged first", "paths.ssa_greedy_optimize"),
      ("single-term reductions and disconnected subgraphs", "paths.DynamicProgramming")],
     ["return value of path functions, optimizer objects and contract_path"])

prop("C03", "The contraction report states the exact costs and sizes of the path",
     "The information object returned by contract_path agrees exactly with the path it comes with: for every step the positions, the removed labels, the "
     "subscripts performed and the operands remaining afterwards; the size of every intermediate and of the largest; the number of labels each step "
     "involves; the size of every label under broadcasting; and the naive cost, the optimised cost and their ratio under the documented FLOP rule "
     "(product of the involved sizes, times max(1, number of operands - 1) plus one if something is summed; the naive cost counts one more if some label occurs in several operands). "
     "It does so for integers of any magnitude, and the printed report shows these values.",
     ["inputs", "configurations"],
     "all contractions, all paths (found or supplied), sizes of any magnitude",
     "Tests pin the printed report of single examples; errors that only appear with several operands per step, broadcasting, repeated labels or sizes beyond 2^63 are unseen.",
     [O + "contract.py", O + "helpers.py"],
     [("cost_list/scale_list/size_list", "per-step accounting", "contract.contract_path")],
     [("FLOP rule", "helpers.flop_count"), ("surviving labels", "helpers.find_contraction"), ("report", "contract.PathInfo")],
     ["attributes of the object returned by contract_path"])

prop("C04", "The 'optimal' search returns a path of minimal FLOP count",
     "Without a memory limit, optimize='optimal' returns a sequence of pairwise contractions whose total cost is the minimum over all sequences of "
     "pairwise contractions, where one contraction costs the product of the sizes of all labels of its two operands, doubled if a label common to both is summed in it. "
     "Consequently no other optimizer reports a cheaper pairwise path in that measure, and 'auto' up to 4 and 'auto-hq' up to 5 operands are optimal too. "
     "With a memory limit its path is minimal among the sequences of contractions whose results fit, which may end, where some pair does not fit, in one contraction of all that is left.",
     ["inputs"],
     "all index structures and sizes",
     "Optimality is a statement about every alternative order; tests compare with hand-known answers of a few equations.",
     [O + "paths.py"],
     [("best_flops", "cost of the best complete path so far", "paths.optimal"), ("result_cache", "cost of merging two sets of terms", "paths.optimal")],
     [("exhaustive search with pruning", "paths.optimal"), ("pair cost", "paths.calc_k12_flops")],
     ["path returned by contract_path(optimize='optimal')"])

prop("C05", "Dynamic programming minimises its stated objective",
     "For each objective (flops, size, write, combo and limit, with any factor) the dynamic-programming optimizer returns, for every connected part of the contraction, a "
     "tree whose objective is minimal among all trees that never combine two operands with no summed label in common (among all trees at all when outer products are searched) and, "
     "if a memory limit is given, among those whose intermediates within the part fit it; labels of a single operand that are not in the output are summed first, and parts are multiplied together last. "
     "It raises an error, and never hangs, exactly when no such tree satisfies the limit. The cost-cap option never changes the objective reached.",
     ["inputs", "configurations"],
     "all index structures, sizes, objectives, search_outer, cost_cap and memory limits",
     "Minimality ranges over all trees; tests pin paths of a few fixed networks per objective.",
     [O + "paths.py"],
     [("x[n]", "best tree for each set of n terms", "paths.DynamicProgramming")],
     [("objective update rules", "paths._dp_compare_*"), ("cost cap iteration", "paths.DynamicProgramming.__call__"),
      ("legs of a set of terms", "paths._dp_calc_legs")],
     ["path returned by DynamicProgramming(...) and optimize='dp'"])

prop("C06", "A memory limit bounds every intermediate",
     "With a memory limit, every intermediate that a found path creates by combining operands before its final step has at most that many elements (operands are left to a final combined step only when no "
     "remaining pair fits). The limit None or -1 means none and gives the same path as no limit, 'max_input' means the largest of the inputs and the output, and any other non-positive or unknown value is rejected with ValueError.",
     ["inputs", "configurations"],
     "all contractions, limits and finders",
     "Tests use two equations and check single paths; the bound must hold for every intermediate of every path.",
     [O + "contract.py", O + "paths.py"],
     [("memory_limit", "elements allowed", "paths")],
     [("limit normalisation", "contract._choose_memory_arg"), ("sieve", "paths.optimal, BranchBound, DynamicProgramming")],
     ["sizes of the intermediates of the returned path"])

prop("C07", "Optimizer names and presets select the documented algorithm",
     "Optimizer names are case-insensitive; every documented name and alias selects its documented algorithm, and 'auto' and 'auto-hq' (and True/None) select by number of operands as documented. "
     "A function registered under a new name is found under every spelling of it and is given the operands' index sets, the output set, all sizes and the limit; registering an existing name in any spelling fails and changes nothing, and an unknown name raises KeyError.",
     ["histories", "configurations"],
     "all histories of registrations and look-ups; all numbers of operands",
     "Tests register one name and look it up; they never mix spellings, collisions and use.",
     [O + "paths.py", O + "__init__.py", O + "contract.py"],
     [("options", "name to function", "paths._PATH_OPTIONS")],
     [("registration and look-up", "paths.register_path_fn, get_path_fn"), ("size-based choice", "paths.auto, auto_hq")],
     ["contract_path(optimize=name)", "register_path_fn", "get_path_fn"])

prop("C08", "A reused optimizer object accumulates history and never gets worse",
     "Calling an optimizer object repeatedly with the same contraction continues its search: random optimizers append exactly one cost and one size per trial, trial numbers continue without gap or repetition (also after a trial that raised, which counts as not run), "
     "and the best score (by the chosen objective, the other measure breaking ties) never gets worse and belongs to the path returned. "
     "Calling it with another contraction raises ValueError and leaves its state unchanged, and its path always has the score it reports.",
     ["histories"],
     "all sequences of calls, trial outcomes, objectives and option changes between calls",
     "Tests call one optimizer twice; the invariant is over histories of calls and trial results.",
     [O + "path_random.py", O + "paths.py"],
     [("best", "best flops, size and path", "RandomOptimizer.best, BranchBound.best"), ("costs, sizes", "per-trial history", "RandomOptimizer")],
     [("score comparison", "paths.get_better_fn"), ("same-contraction check", "paths.PathOptimizer._check_args_against_first_call")],
     ["attributes costs, sizes, best, path of optimizer objects"])

prop("C09", "Parallel random search equals the serial search for every schedule",
     "With any executor and any completion order of its jobs, a random search whose trials depend on their number only performs each of its max_repeats trials exactly once and ends with the same costs, sizes, best and path as a serial run; "
     "it never has more than pre_dispatch jobs outstanding, reaches that many before it waits if enough trials remain, and leaves no job running when it stops early, by time limit or because a trial raised (the exception reaches the caller, and the trials before it count): those left are cancelled. "
     "A pool it created is shut down when the setting is replaced or the optimizer is deleted; a pool supplied by the user is not.",
     ["schedules", "configurations"],
     "all numbers of trials and pre-dispatched jobs, all completion orders, time limits expiring and trials raising at any point",
     "Tests run one real pool once; bookkeeping errors depend on the relation of trials to pre-dispatch and on where the search stops.",
     [O + "path_random.py"],
     [("futures", "outstanding jobs in submission order", "RandomOptimizer._futures")],
     [("lazy submission", "RandomOptimizer._gen_results_parallel"), ("cancellation", "RandomOptimizer._cancel_futures"), ("pool ownership", "RandomOptimizer.parallel")],
     ["calls received by the executor, attributes of the optimizer"])

prop("C10", "Sharing intermediates never changes a result",
     "Inside any nesting of sharing contexts, with fresh, captured or resumed caches, every contraction returns what it returns outside: also when arrays die and their identities are reused, when equations differ only by renaming or operand order, "
     "when the same array is used several times, when backends are mixed or convert arrays, and when options such as out or dtype are given.",
     ["histories", "inputs"],
     "all histories of contexts, contractions, array lifetimes and backends",
     "A false cache hit needs two operations whose keys collide though their results differ, or a recycled identity; tests repeat identical calls on live arrays.",
     [O + "sharing.py", O + "contract.py", O + "backends/"],
     [("cache", "key to result", "sharing._SHARING_STACK")],
     [("keys of each operation", "sharing.*_cache_wrap"), ("keeping keyed arrays alive", "sharing._save_tensors")],
     ["return values of contract and expressions inside shared_intermediates"])

prop("C11", "Sharing performs each distinct operation once per cache",
     "Within one cache, an einsum, tensordot, transpose or conversion on the same arrays is executed once and its result reused on every repetition, for einsum also after renaming labels or permuting distinct operands; the innermost context's cache is the only one consulted and filled, "
     "a cache that is passed in (even an empty one) is the one used and yielded, and can be resumed later with everything it holds. "
     "No operation is cached outside a context, and the outer cache is in force again when an inner context ends.",
     ["histories"],
     "all histories of nested, sequential and resumed contexts and operations",
     "Tests count operations of a few fixed scripts; scoping and reuse are properties of every history.",
     [O + "sharing.py"],
     [("stack", "caches of the current thread, innermost last", "sharing._SHARING_STACK")],
     [("memoisation", "sharing._memoize"), ("canonical einsum key", "sharing.einsum_cache_wrap, parser.alpha_canonicalize")],
     ["calls received by the backend library, count_cached_ops, currently_sharing, get_sharing_cache"])

prop("C12", "Sharing contexts are per thread and end on every exit",
     "A sharing context affects only the thread that opened it: operations of other threads neither see nor fill its cache under any interleaving, and a cache shared deliberately by several threads still gives every thread right results. "
     "A context ends on every exit, by exception too, and restores the state before it.",
     ["schedules", "fault_sequences"],
     "all interleavings of the steps of several threads, exceptions at any step",
     "Tests run threads freely once; isolation must hold for every interleaving of enter, look-up, compute, store and exit.",
     [O + "sharing.py"],
     [("stack per thread", "thread id to caches", "sharing._SHARING_STACK")],
     [("thread-keyed stack", "sharing._add_sharing_cache, _remove_sharing_cache"), ("finally clause", "sharing.shared_intermediates")],
     ["currently_sharing, get_sharing_cache and results per thread under controlled interleavings"])

prop("C13", "A contraction expression is a pure reusable function of its arrays",
     "An expression built for some shapes gives, for any arrays of the same ranks (also of other sizes, each label having one size), in any order of calls and with any interleaving of backends, the result of contracting those arrays directly; one call never influences another. "
     "A wrong number of arrays raises ValueError naming the right number, and building with out, backend or no optimisation is rejected.",
     ["histories", "inputs"],
     "all sequences of calls of one expression",
     "Tests call each expression once or twice with the build shapes.",
     [O + "contract.py"],
     [("contraction_list", "steps replayed by each call", "contract.ContractExpression")],
     [("replay of the stored steps", "ContractExpression.__call__")],
     ["results of expression calls"])

prop("C14", "Constants are folded once and do not change results",
     "An expression with any set of constant operands (all of them included) gives the same result as supplying those arrays in the call, for every backend, order of calls and concurrent first calls. "
     "The operations that precede the first one involving a supplied array (except the last of the path) are performed at most once per backend in a sequential history, on the first use or explicit evaluation, and no later call repeats them; evaluation for one backend does not disturb another.",
     ["histories", "configurations", "schedules"],
     "all sets of constants, paths, call sequences and backends",
     "Tests fold one or two constants per equation with one call order.",
     [O + "contract.py", O + "backends/"],
     [("evaluated constants", "backend to partially contracted operands", "ContractExpression")],
     [("folding pass", "ContractExpression.evaluate_constants, _core_contract"), ("remaining steps", "ContractExpression.contraction_list")],
     ["results and operations received by the backend library"])

prop("C15", "Backends are chosen by the arrays and hand back the right array type",
     "By default the library of the first array performs the work, falling back to NumPy for types whose library has no tensordot; an explicitly named backend is used instead (with optimize=False: if it has an einsum). "
     "An expression given NumPy arrays and a converting backend (torch, jax, tensorflow) computes there and returns a NumPy array of the right value, shape and dtype, and one given native arrays returns native arrays; results do not depend on the library.",
     ["configurations", "inputs"],
     "all equations, backends, array types, and dimensions including empty ones",
     "Tests run one list of equations per library with fixed sizes.",
     [O + "contract.py", O + "backends/"],
     [("function cache", "library function by name", "backends.dispatch")],
     [("dispatch", "contract.parse_backend, backends.dispatch"), ("conversion", "backends.torch/jax/tensorflow")],
     ["type, dtype and value of results; calls received by a recording library"])

prop("C16", "All input formats of the same contraction mean the same",
     "Subscript strings with or without spaces, with implicit or explicit output, with ellipses standing for any number of leading, inner or trailing (possibly broadcast) axes, the interleaved operand/label form with any sortable labels, and shapes instead of arrays for path finding, all denote the contraction that numpy's rules give them: "
     "implicit output lists ellipsis axes first and then the labels seen once, in sorted order. Every format of the same contraction gives the same result and path (interleaved labels that are not 0..51 need optimisation on).",
     ["inputs"],
     "all subscripts, ranks and label types",
     "Tests enumerate fixed strings; the mixture of ellipsis ranks, label order and implicit output is unbounded.",
     [O + "parser.py", O + "contract.py"],
     [("parsed subscripts", "input and output strings", "parser.parse_einsum_input")],
     [("ellipsis expansion", "parser.parse_einsum_input"), ("label mapping", "parser.convert_interleaved_input"), ("implicit output", "parser.find_output_str")],
     ["results of contract and contract_path, parse_einsum_input"])

prop("C17", "Malformed requests are rejected, well-formed ones accepted",
     "A request whose arrow, ellipses, output labels (repeated or absent from the inputs), number of operands, number of labels per operand, or dimension sizes (unequal and not 1) are inconsistent, or an operand of which is not array-like, raises ValueError, "
     "an unknown keyword of contract or contract_path TypeError, and an unknown optimizer name KeyError when a path has to be found (three or more operands); a consistent request never raises (limits that dynamic programming cannot satisfy excepted). This is the same for contract, contract_path and contract_expression.",
     ["inputs"],
     "all subscript strings over the alphabet and all operand shapes",
     "Tests try a dozen malformed inputs; acceptance must coincide with validity everywhere.",
     [O + "parser.py", O + "contract.py"],
     [],
     [("validation", "parser.parse_einsum_input, contract.contract_path")],
     ["exception or success of the public functions"])

prop("C18", "out= is filled and returned; nothing else of the caller's is modified",
     "With out given (not overlapping an operand), the result is written into that very array, whatever its strides and whichever operation is last, and the array itself is returned. "
     "No call of contract, contract_path or an expression modifies the operand arrays, the shapes, the lists, paths, dictionaries or options it was given.",
     ["inputs", "configurations"],
     "all equations, paths, last operations, layouts of out",
     "Tests cover out for two equations and never look at the arguments afterwards.",
     [O + "contract.py", O + "sharing.py"],
     [],
     [("last step", "contract._core_contract"), ("conversion result copied", "ContractExpression._contract_with_conversion")],
     ["identity and content of out; deep comparison of the arguments"])

prop("C19", "Linear and single-assignment paths convert into each other exactly",
     "Converting a complete path from single-assignment to linear form and back, or the other way round, gives the same path up to the order of positions within a step, and both forms combine the same operands at every step. "
     "This holds for steps of any number of operands and paths of any length.",
     ["inputs"],
     "all complete paths",
     "Tests convert two or three fixed paths.",
     [O + "paths.py"],
     [("ids", "position to id mapping", "paths.linear_to_ssa")],
     [("conversions", "paths.ssa_to_linear, linear_to_ssa")],
     ["return values of the conversions"])

prop("C20", "Symbols are distinct and renaming preserves the equation",
     "get_symbol gives a different character for every index, in particular the 52 letters first; unused symbols are fresh, distinct and as many as asked for; renaming an equation to backend-valid characters or to canonical names is injective on labels and keeps punctuation and structure, "
     "so two equations have the same canonical form exactly when one is a renaming of the other.",
     ["inputs"],
     "all indices and all equations over any characters",
     "Tests check a few indices and strings.",
     [O + "parser.py"],
     [],
     [("symbol table", "parser.get_symbol"), ("renaming", "parser.convert_to_valid_einsum_chars, alpha_canonicalize")],
     ["return values"])

prop("C21", "Matrix-library use is sound and reported truthfully",
     "A step is handed to tensordot only when tensordot (and a transpose) gives exactly its einsum: two operands, no repeated label within an operand, every summed label in both operands, no kept label in both, and no broadcasting; steps that are such get a classification, and it names the kind of product (dot, matrix-vector, matrix-matrix, or tensor product, outer). "
     "A library that only offers tensordot and transpose can therefore evaluate every contraction of two or more operands whose labels each occur in exactly two places (two operands, or an operand and the output).",
     ["inputs"],
     "all pairs of operand labels, output labels and shapes",
     "Tests enumerate about twenty pairs.",
     [O + "blas.py", O + "contract.py"],
     [],
     [("classification", "blas.can_blas"), ("fallback choice", "contract._core_contract")],
     ["can_blas, contraction list entries, calls received by a recording library"])

prop("C22", "Path finding is deterministic and independent of label names",
     "For the same contraction every deterministic optimizer (optimal, greedy, branch, dynamic programming, auto, auto-hq up to 16 operands, with any options and limit) returns the same path in every process, whatever the hash seed, the order of the size dictionary and of the labels within an index set, earlier calls, and the names of the labels: "
     "consistently renaming them does not change the path. Random-greedy optimizers, too, give the same path, costs and sizes for the same trial numbers in every process, in one call or several.",
     ["inputs", "configurations"],
     "all contractions, hash seeds and renamings",
     "Tests run in one process with one fixed hash seed.",
     [O + "paths.py", O + "path_random.py"],
     [],
     [("canonical ordering and integer labels", "paths.ssa_greedy_optimize, DynamicProgramming"), ("seeding per trial", "path_random.ssa_path_compute_cost")],
     ["paths returned under different hash seeds and labels"])

prop("C23", "The greedy search follows its documented strategy",
     "The greedy optimizer multiplies operands with equal label sets together as soon as there are any. Then it contracts pairs that share a label which is not in the output (nor on every input): the first such pair is a cheapest of all by the cost function, "
     "and every later one is at least as cheap as the best pair of the operand made last and as the best pairs found for earlier operands that are still available. Only when no two operands share such a label does it form outer products, always of the two operands that are smallest on the output. "
     "The cost function receives the true sizes and label sets of result and operands, and the default one is the size of the result minus the sizes of the operands.",
     ["inputs", "configurations"],
     "all index structures, sizes and cost functions",
     "Tests pin greedy paths of a few networks.",
     [O + "paths.py"],
     [("queue", "candidate pairs by cost", "paths.ssa_greedy_optimize")],
     [("phases", "paths.ssa_greedy_optimize")],
     ["path returned by optimize='greedy'"])

prop("C24", "The object backend works for any algebra",
     "backend='object' evaluates the contraction with the elements' own addition and multiplication, using nothing else of them and starting from the elements themselves: for any commutative semiring (rationals, Gaussian integers, max-plus, booleans, symbols) the result is the Einstein summation over that semiring, "
     "for every path and output order, including (non-empty) sums over several labels and operands with repeated labels.",
     ["inputs", "configurations"],
     "all equations and all commutative semirings",
     "Tests evaluate a few equations with objects that behave like integers.",
     [O + "backends/object_arrays.py", O + "contract.py"],
     [],
     [("object einsum", "backends.object_arrays.object_einsum")],
     ["values returned with object arrays"])

prop("C25", "The branch searches keep their promises: best among explored, cheapest step",
     "The branch searches (branch-all, branch-2, branch-1, BranchBound) follow steps that contract two operands sharing a label, and others only where no two operands share one. With a single branch every step of the path is such a pair and is cheapest by the cost function among those within the cutoff. "
     "In general the path returned is, by the objective (minimize='flops': FLOPs, then largest intermediate; 'size': the reverse), at least as good as every sequence of such steps that are always among the nbranch cheapest "
     "and whose FLOPs after each step are at most cutoff_flops_factor times those of the cheapest way to make as many steps; so with nbranch=None and an infinite cutoff, as every sequence that forms outer products only when it must.",
     ["inputs", "configurations"],
     "all index structures, sizes, numbers of branches, cutoffs, objectives and cost functions",
     "Tests pin the branch paths of two networks; a search that prunes a branch it should have followed still returns a valid path.",
     [O + "paths.py"],
     [("best", "best score so far", "paths.BranchBound.__call__"), ("best_progress", "lowest FLOPs seen with as many operands left", "paths.BranchBound")],
     [("pruning and candidate order", "paths.BranchBound.__call__")],
     ["path returned by the branch optimizers"])

prop("C26", "Random equations are exactly what was asked for",
     "rand_equation(n, regularity, n_out, d_min, d_max, seed, global_dim) returns, for every seed and n >= 2, an equation of n operands with n*regularity//2 labels that each occur in exactly two different operands and not in the output, "
     "n_out labels that each occur in one operand and in the output, with global_dim one further label on every operand and in the output, no label twice in an operand, and no operand without labels when there are enough; shapes (and the returned size dictionary) agree with it and lie between d_min and d_max; "
     "the same seed gives the same answer. build_shapes and build_views give each operand the sizes of its labels.",
     ["inputs"],
     "all parameters and seeds",
     "Tests call it with a few seeds and only feed the result to a path finder.",
     [O + "testing.py"],
     [("size_dict", "label sizes", "testing.rand_equation")],
     [("placement of labels", "testing.rand_equation")],
     ["return value of rand_equation, build_shapes, build_views"])

prop("C27", "Random greedy trials draw as their settings say",
     "The first trial of RandomGreedy is as cheap as the plain greedy path for the same (non-random) cost function, and so are all trials with nbranch 1. In every other trial, operands with equal label sets are multiplied first, and as long as two operands share a label that is summed such a pair is contracted, one of the nbranch cheapest "
     "of all such pairs by the cost function; at temperature 0 always a cheapest one. Otherwise pairs are chosen with a probability proportional to exp(-(cost - least cost)/temperature), the temperature being multiplied by max(1, |least cost|) unless rel_temperature is False (defaults: temperature 1, relative, 8 branches). "
     "Changing temperature, nbranch or rel_temperature on the optimizer takes effect at its next run.",
     ["inputs", "configurations", "histories"],
     "all index structures, sizes, cost functions, settings and trial numbers",
     "Tests only check that some path comes out and that repeating helps.",
     [O + "path_random.py", O + "paths.py"],
     [("settings", "temperature, rel_temperature, nbranch", "path_random.RandomGreedy")],
     [("choice among candidates", "path_random.thermal_chooser"), ("all candidates offered", "paths.ssa_greedy_optimize")],
     ["result of each trial, as an executor given as parallel= sees it"])

prop("C28", "Options of einsum mean the same for every path",
     "For contractions of two or more NumPy arrays, the options dtype, casting and order of contract and contract_expression mean what they mean for numpy.einsum, whichever path is taken and whether or not matrix products could be used, with constants and while sharing: the result has the type asked for (or the common type of the operands), "
     "the right values, and the memory order asked for ('C' or 'F', unless it is a view of an operand); where the casting rule forbids the conversion of an operand, TypeError is raised.",
     ["inputs", "configurations"],
     "all contractions, operand types, options and paths",
     "Tests pass invalid options to a scalar.",
     [O + "contract.py", O + "sharing.py"],
     [("kwargs", "options kept by an expression", "contract.ContractExpression")],
     [("options per step", "contract._core_contract, contract._einsum, contract._filter_einsum_defaults")],
     ["dtype, memory order and value of the result, or TypeError"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
