M = "model_checking"
TECH.update({
    "C01": "Einsum.tla gives the meaning of a contraction (pairwise steps refine it: MC_Einsum); TLC evaluates the definition on operands and compares the values returned by the code for all configurations (T_Value)",
    "C02": "path machine in two forms (MC_Path, exhaustive); TLC replays every path the finders return as actions of that machine (T_Path)",
    "C03": "TLC replays the returned path on the path machine and recomputes every reported number with exact naturals (BigNat, T_Info)",
    "C04": "minimum over all contraction orders as a table (Search.tla), proved equal to the minimum over all sequences by exhaustive exploration (MC_Search); returned paths judged against it (T_Search)",
    "C05": "as C04 with the objectives and connectivity restriction of dynamic programming; TLC builds the table level by level for each recorded problem (T_Search)",
    "C06": "model of limited searches (MC_Limit); limited paths replayed on the path machine with sizes of intermediates as exact naturals (T_Limit)",
    "C07": "registry machine: all histories explored (MC_Registry), replayed into the code, recorded and random histories judged (T_Registry)",
    "C08": "random search machine explored exhaustively (MC_RandomSearch); its behaviours drive scripted optimizers and the logs are validated (T_Random); real searches validated by replaying their paths (T_Hist)",
    "C09": "random search machine with executors, windows and deadlines (MC_RandomSearch); behaviours replayed with a controllable executor, logs validated (T_Random); ownership machine of worker pools (T_Pool)",
    "C10": "heap model of identity-keyed caching with address reuse (MC_SharingHeap; refuted without pinning); its histories are replayed into the code and the values judged by the definition (T_Same)",
    "C11": "sharing machine (Sharing.tla, MC_Sharing) generates histories; logs of the operations a recording library received are validated event by event (T_Share)",
    "C12": "sharing machine with threads at call granularity (MC_Sharing) and at look-up/compute/store granularity (MC_SharingFine, observer soundness); interleavings replayed with controlled threads, logs validated (T_Share)",
    "C13": "expression machine: histories of calls, failures and constructions (MC_Calls) replayed; values judged by the definition of the contraction (T_Same), refusals by T_Args",
    "C14": "expression machine with constants and failing operations (MC_Expr), concurrent first calls (MC_ExprThreads, refuted for the unsafe order); replayed, library operations and values validated (T_Expr, T_Same)",
    "C15": "dispatch machine with remembered functions (MC_Backend, all histories; refuted when remembered by name only) replayed with fresh libraries; rule (Backend.tla) evaluated by TLC on the calls recording libraries received and on the type, dtype and value real libraries returned (T_Backend)",
    "C16": "grammar and meaning of requests (Parser.tla); all short strings enumerated by TLC and replayed in several formats; T_Parser compares parse, shape and value",
    "C17": "acceptance predicate of Parser.tla; all short strings enumerated by TLC (MC_Parser) and replayed; outcome of each entry point judged (T_Parser)",
    "C18": "frame condition over the caller's memory (Frame.tla, MC_Frame); buffers before and after recorded histories judged cell by cell (T_Frame)",
    "C19": "two path machines run side by side (MC_Path, exhaustive to 5 operands); every behaviour replayed through the conversions (T_Forms)",
    "C20": "canonical form characterised by renaming (MC_Symbols, all pairs of small equations); replayed and judged (T_Symbols)",
    "C21": "eligibility predicate proved equivalent to being a tensordot (MC_Blas, all small pairs); all pairs replayed, classifications of whole paths and calls received by a library judged (T_Blas)",
    "C22": "a finder is a function of the contraction's structure (Determ.tla, MC_Determ); histories recorded in processes with different hash seeds and renamings judged by a memo machine (T_Determ)",
    "C23": "greedy machine with its queue checked against the observable rules (MC_Greedy); recorded paths and cost-function arguments replayed against the rules (T_Greedy)",
    "C24": "algebras as TLA+ operators (Semiring.tla; laws checked by MC_Semiring); the definition evaluated by TLC in each algebra against the code's values (T_Value)",
    "C25": "branch-and-bound machine with open tie-breaking checked against the set of sequences it must not miss (MC_Branch); recorded paths judged against that set (T_Branch)",
    "C26": "generator as a nondeterministic machine, every draw leading to what was asked for (MC_RandEq); generated equations judged by the same predicate (T_RandEq)",
    "C27": "queue machine of a random greedy trial checked against declarative rules (MC_RandGreedy, with a refuted variant); every trial's path replayed against the rules and first-choice frequencies compared with the law in the specification (T_RandGreedy)",
    "C28": "stepwise evaluation with options shown equal to evaluation at once over all types and casting rules (MC_Options, with a refuted variant); recorded results judged by the same type rules and the definition of the contraction (T_Options)",
})
