From 99a938d8c59ea857395f0b7901a88e162079a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 01/38] fix: honour out/dtype and other einsum options inside
 shared_intermediates

cached_einsum dropped every keyword except backend, so contract(..., out=x)
inside a sharing context returned x without ever writing to it.
---
 opt_einsum/sharing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..90b172c 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -163,8 +163,13 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         if not currently_sharing():
             return einsum(*args, **kwargs)
 
-        # hash modulo commutativity by computing a canonical ordering and names
+        # extra options (e.g. ``out`` or ``dtype``) are not part of the key
         backend = kwargs.pop("backend", "numpy")
+        kwargs = {k: v for k, v in kwargs.items() if v is not None}
+        if kwargs:
+            return einsum(*args, backend=backend, **kwargs)
+
+        # hash modulo commutativity by computing a canonical ordering and names
         equation = args[0]
         inputs, output, operands = parse_einsum_input(args)
         inputs = inputs.split(",")
-- 
2.43.0


From 9731a9156fa9a1d7d45aede4b9b20ab1db87660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:57 +0000
Subject: [PATCH 02/38] fix: keep converted arrays alive in the sharing cache

to_backend conversions are memoized by id(array) but the array itself was not
saved, so a recycled id returned the conversion of a different array.
---
 opt_einsum/sharing.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 90b172c..98c51a2 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -188,6 +188,23 @@ def einsum_cache_wrap(einsum: Any) -> Any:
     return cached_einsum
 
 
+class _ById:
+    """Cache key comparing ``array`` by identity, which also keeps it alive so
+    that its id is not recycled.
+    """
+
+    __slots__ = ("array",)
+
+    def __init__(self, array: Any):
+        self.array = array
+
+    def __hash__(self) -> int:
+        return id(self.array)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _ById) and self.array is other.array
+
+
 def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any:
     """Decorates an ``to_backend()`` implementation to be memoized inside a
     :func:`shared_intermediates` context (e.g. ``to_cupy``, ``to_torch``).
@@ -204,7 +221,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _ById(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -215,7 +232,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _ById(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From a882da2949b72b84f8efb292ee63ef1321fc680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:05 +0000
Subject: [PATCH 03/38] fix: run every trial of a parallel random search

When pre_dispatch jobs were outstanding, the trial being considered was
dropped rather than submitted, so max_repeats > pre_dispatch lost trials.
---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From 3bba274dc9a0dc2f062f0b1b6918eda641bf09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:50 +0000
Subject: [PATCH 04/38] fix: do not let register_path_fn silently replace an
 option

The duplicate check ignored that names are stored in lower case, so
registering 'OPTIMAL' overwrote the built-in 'optimal'.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..68e5964 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1379,10 +1379,11 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
+    name = name.lower()
     if name in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
-    _PATH_OPTIONS[name.lower()] = fn
+    _PATH_OPTIONS[name] = fn
 
 
 def get_path_fn(path_type: str) -> PathSearchFunctionType:
-- 
2.43.0


From 71ef1584e648c2b01fb7c63a44d4f8c583ecb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:50 +0000
Subject: [PATCH 05/38] fix: do not confuse equal index sets in optimal and
 branch path finding

The pairwise result cache was keyed on the operands' index sets only, but the
surviving indices depend on which terms remain. With repeated index sets a
stale entry made 'optimal' miss the optimum and both ignore memory_limit.
---
 opt_einsum/paths.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 68e5964..080d74c 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -231,9 +231,11 @@ def optimal(
     best_flops = {"flops": float("inf")}
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
-    result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
+    # the result of a contraction depends on which terms each operand was built
+    # from, its indices alone are ambiguous if they appear more than once
+    result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-    def _optimal_iterate(path, remaining, inputs, flops):
+    def _optimal_iterate(path, remaining, inputs, terms, flops):
         # reached end of path (only ever get here if flops is best found so far)
         if len(remaining) == 1:
             best_flops["flops"] = flops
@@ -244,7 +246,7 @@ def optimal(
         for i, j in itertools.combinations(remaining, 2):
             if i > j:
                 i, j = j, i
-            key = (inputs[i], inputs[j])
+            key = (terms[i], terms[j])
             try:
                 k12, flops12 = result_cache[key]
             except KeyError:
@@ -274,11 +276,18 @@ def optimal(
             _optimal_iterate(
                 path=path + ((i, j),),
                 inputs=inputs + (k12,),
+                terms=terms + (terms[i] | terms[j],),
                 remaining=remaining - {i, j} | {len(inputs)},
                 flops=new_flops,
             )
 
-    _optimal_iterate(path=(), inputs=inputs_set, remaining=set(range(len(inputs))), flops=0)
+    _optimal_iterate(
+        path=(),
+        inputs=inputs_set,
+        terms=tuple(1 << i for i in range(len(inputs))),
+        remaining=set(range(len(inputs))),
+        flops=0,
+    )
 
     return ssa_to_linear(best_ssa_path["ssa_path"])
 
@@ -400,9 +409,11 @@ class BranchBound(PathOptimizer):
         output: FrozenSet[str] = frozenset(output_)
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
-        result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
+        # the result of a contraction depends on which terms each operand was
+        # built from, its indices alone are ambiguous if they appear more than once
+        result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-        def _branch_iterate(path, inputs, remaining, flops, size):
+        def _branch_iterate(path, inputs, terms, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
             if len(remaining) == 1:
                 self.best["size"] = size
@@ -413,9 +424,10 @@ class BranchBound(PathOptimizer):
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
                 # find resulting indices and flops
                 try:
-                    k12, flops12 = result_cache[k1, k2]
+                    k12, flops12 = result_cache[terms[i], terms[j]]
                 except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    k12, flops12 = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    result_cache[terms[i], terms[j]] = k12, flops12
 
                 try:
                     size12 = size_cache[k12]
@@ -483,13 +495,21 @@ class BranchBound(PathOptimizer):
                 _branch_iterate(
                     path=path + ((i, j),),
                     inputs=inputs + (k12,),
+                    terms=terms + (terms[i] | terms[j],),
                     remaining=(remaining - {i, j}) | {len(inputs)},
                     flops=new_flops,
                     size=new_size,
                 )
                 bi += 1
 
-        _branch_iterate(path=(), inputs=inputs, remaining=set(range(len(inputs))), flops=0, size=0)
+        _branch_iterate(
+            path=(),
+            inputs=inputs,
+            terms=tuple(1 << i for i in range(len(inputs))),
+            remaining=set(range(len(inputs))),
+            flops=0,
+            size=0,
+        )
 
         return self.path
 
-- 
2.43.0


From bdc5cb9a7b9f8bc67612e438501fd98999623463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 06/38] fix: report an unsatisfiable memory_limit for dp combo
 and limit costs

With an infinite naive_scale the cost cap was raised forever instead of
raising RuntimeError as for the other objectives. Each merge costs at most
(1 + factor) or max(1, factor) times its flops.
---
 opt_einsum/paths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 080d74c..3dcab73 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1067,8 +1067,8 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     elif minimize == "write":
         return _dp_compare_write, 1
     elif callable(minimize):
-        # default to naive_scale=inf for this and remaining options
-        # as otherwise memory_limit check can cause problems
+        # default to naive_scale=inf for a custom cost as otherwise
+        # the memory_limit check can cause problems
         return minimize, float("inf")
 
     # parse out a customized value for the combination factor
@@ -1079,9 +1079,9 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     minimize, custom_factor = match.groups()
     factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=max), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=max), max(1, factor)
     else:
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
-- 
2.43.0


From 422c2198af7b96ac79b43784b5b7613f448cd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 07/38] fix: find a dp path for contractions with an empty
 dimension

The bound that detects an unsatisfiable memory_limit became zero when any
dimension is empty, so disconnected parts without it raised RuntimeError.
---
 opt_einsum/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 3dcab73..5687906 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1213,7 +1213,7 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 6ef95b6a104ead95ccf0fafa520a77a4c0992502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 08/38] fix: keep ellipses when mapping unicode subscripts for
 optimize=False
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'.' was replaced by a letter and the explicit output lost its ellipsis, so
contract("α...,α...", ..., optimize=False) silently summed the wrong axes.
---
 opt_einsum/contract.py | 3 ++-
 opt_einsum/parser.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..f635f57 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -443,7 +443,8 @@ def _einsum(*operands: Any, **kwargs: Any) -> ArrayType:
     if not parser.has_valid_einsum_chars_only(einsum_str):
         # Explicitly find output str first so as to maintain order
         if "->" not in einsum_str:
-            einsum_str += "->" + parser.find_output_str(einsum_str)
+            ellipsis = "..." if "..." in einsum_str else ""
+            einsum_str += "->" + ellipsis + parser.find_output_str(einsum_str)
 
         einsum_str = parser.convert_to_valid_einsum_chars(einsum_str)
 
diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..d447928 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -109,7 +109,7 @@ def convert_to_valid_einsum_chars(einsum_str: str) -> str:
     >>> oe.parser.convert_to_valid_einsum_chars("Ĥěļļö")
     'cbdda'
     """
-    symbols = sorted(set(einsum_str) - set(",->"))
+    symbols = sorted(set(einsum_str) - set(",->."))
     replacer = {x: get_symbol(i) for i, x in enumerate(symbols)}
     return "".join(replacer.get(x, x) for x in einsum_str)
 
-- 
2.43.0


From 3409e8bc3bc1ee34c6ee888dd67176f488462fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 09/38] fix: accept spaces in subscripts with optimize=False

A space was treated as an index that needs renaming, so subscripts that are
valid for einsum and for every other setting of optimize were rejected.
---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index f635f57..f847944 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -437,7 +437,7 @@ def _einsum(*operands: Any, **kwargs: Any) -> ArrayType:
     if not isinstance(operands[0], str):
         return fn(*operands, **kwargs)
 
-    einsum_str, operands = operands[0], operands[1:]
+    einsum_str, operands = operands[0].replace(" ", ""), operands[1:]
 
     # Do we need to temporarily map indices into [a-z,A-Z] range?
     if not parser.has_valid_einsum_chars_only(einsum_str):
-- 
2.43.0


From 92ee40a10922b03377cbde2f1223c10ce566c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 10/38] fix: broadcast a dimension of size one against an empty
 dimension

The intermediate shape took the larger of 1 and 0, so a later step was given
to tensordot although its operands need broadcasting.
---
 opt_einsum/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index d447928..eba546b 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,13 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    return tuple(
+        max(
+            (shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0),
+            key=lambda dim: (dim != 1, dim),
+        )
+        for c in output
+    )
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From 3b5cb2e2f0f061e3d2c7245a5c2970d5e48e4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 11/38] fix: keep the order of interleaved labels beyond the
 26th

get_symbol is not increasing ('z' is followed by 'A'), so with more than 26
labels an implicit output came out in a different order than np.einsum's.
---
 opt_einsum/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index eba546b..d81bbdb 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -276,7 +276,8 @@ def convert_interleaved_input(operands: Sequence[Any]) -> Tuple[str, Tuple[Any,
         symbol_set.discard(Ellipsis)
 
         # build the map based on sorted user symbols, retaining the order we lost in the `set`
-        symbol_map = {symbol: get_symbol(idx) for idx, symbol in enumerate(sorted(symbol_set))}
+        symbols = sorted(get_symbol(idx) for idx in range(len(symbol_set)))
+        symbol_map = dict(zip(sorted(symbol_set), symbols))
 
     except TypeError:  # unhashable or uncomparable object
         raise TypeError(
-- 
2.43.0


From 7904430857ad34b2e1383f0a408b4950129a853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 12/38] fix: support expressions whose operands are all
 constants

Folding every operand left neither arrays to infer the backend from nor a
contraction list, so calling the expression raised IndexError or TypeError.
Calling an expression with no arrays now also gives the usual ValueError.
---
 opt_einsum/contract.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index f847944..1618f4f 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -654,8 +654,10 @@ def _core_contract(
         inds, idx_rm, einsum_str, _, blas_flag = contraction
 
         # check if we are performing the pre-pass of an expression with constants,
-        #     if so, break out upon finding first non-constant (None) operand
-        if evaluate_constants and any(operands[x] is None for x in inds):
+        #     if so, break out upon finding first non-constant (None) operand,
+        #     always leaving the last contraction to the call of the expression
+        last = (num + 1) == len(contraction_list)
+        if evaluate_constants and (last or any(operands[x] is None for x in inds)):
             return operands, contraction_list[num:]
 
         tmp_operands = [operands.pop(x) for x in inds]
@@ -870,8 +872,6 @@ class ContractExpression:
         Returns:
             The contracted result.
         """
-        backend = parse_backend(arrays, backend)
-
         correct_num_args = self._full_num_args if evaluate_constants else self.num_args
 
         if len(arrays) != correct_num_args:
@@ -880,6 +880,8 @@ class ContractExpression:
                 f"but received {len(arrays)}."
             )
 
+        backend = parse_backend(arrays or tuple(self._constants_dict.values()), backend)
+
         if self._constants_dict and not evaluate_constants:
             # fill in the missing non-constant terms with newly supplied arrays
             ops_var, ops_const = iter(arrays), self._get_evaluated_constants(backend)
-- 
2.43.0


From 819e69475ccf825217e033e4df5493921774c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 13/38] fix: make the first call of an expression with
 constants thread safe

The folded operands became visible before the matching contraction list, so
a concurrent call could apply the full list to already folded operands.
---
 opt_einsum/contract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 1618f4f..fef5bc4 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -784,8 +784,10 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
+        # update the list before publishing the operands it applies to, as
+        # another thread might be calling this expression
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From 99d8b60ef01fe36d08a68c7bd160dbbaf70b6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:43 +0000
Subject: [PATCH 14/38] fix: broadcast dimensions of size one with the object
 backend

The size of a label was taken from the last operand that has it, so a trailing
dimension of size one silently truncated the result.
---
 opt_einsum/backends/object_arrays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..e68ba5c 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,9 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # a dimension of size one broadcasts against any other
+            if sizes.get(k, 1) == 1:
+                sizes[k] = d
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +52,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(0 if d == 1 else coord[k] for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From 12254ccd88ae12c2bf0730ba04a46874e135f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:46 +0000
Subject: [PATCH 15/38] fix: asking for the sharing cache outside of a context
 must not start sharing

---
 opt_einsum/sharing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 98c51a2..e67bd9b 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -37,7 +37,8 @@ def currently_sharing() -> bool:
 
 def get_sharing_cache() -> CacheType:
     """Return the most recent sharing cache -- thread specific."""
-    return _SHARING_STACK[threading.get_ident()][-1]
+    # do not create an (empty) entry for this thread if it is not sharing
+    return _SHARING_STACK.get(threading.get_ident(), [])[-1]
 
 
 def _add_sharing_cache(cache: CacheType) -> Any:
-- 
2.43.0


From d6ee0788b7fa0fee6c191e6f9bea9dfed9c22ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 16/38] fix: raise ValueError for too few operands with an
 ellipsis

---
 opt_einsum/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index d81bbdb..e58387a 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -361,6 +361,12 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
             split_subscripts = subscripts.split(",")
             out_sub = False
 
+        if len(split_subscripts) != len(operands):
+            raise ValueError(
+                f"Number of einsum subscripts, {len(split_subscripts)}, must be equal to the "
+                f"number of operands, {len(operands)}."
+            )
+
         for num, sub in enumerate(split_subscripts):
             if "." in sub:
                 if (sub.count(".") != 3) or (sub.count("...") != 1):
-- 
2.43.0


From ec5f37f366119bdd04ac7547a190f9acfc1cc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 17/38] fix: reject repeated ellipses in the output

---
 opt_einsum/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index e58387a..d35f60a 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -357,6 +357,8 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
             input_tmp, output_sub = subscripts.split("->")
             split_subscripts = input_tmp.split(",")
             out_sub = True
+            if ("." in output_sub) and ((output_sub.count(".") != 3) or (output_sub.count("...") != 1)):
+                raise ValueError("Invalid Ellipses.")
         else:
             split_subscripts = subscripts.split(",")
             out_sub = False
-- 
2.43.0


From 75dec16b59e113017160a3da1cbdc89092a59046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 18/38] fix: reject a comma in the output with ValueError

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index d35f60a..5e1a8ff 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -417,7 +417,7 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
     for char in output_subscript:
         if output_subscript.count(char) != 1:
             raise ValueError(f"Output character '{char}' appeared more than once in the output.")
-        if char not in input_subscripts:
+        if char not in input_subscripts.replace(",", ""):
             raise ValueError(f"Output character '{char}' did not appear in the input")
 
     # Make sure number operands is equivalent to the number of terms
-- 
2.43.0


From 0dbe74652638c1fc665efb92336ea747dff33e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 19/38] fix: raise ValueError for an unknown output label in
 the interleaved format

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 5e1a8ff..5a12772 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -270,7 +270,7 @@ def convert_interleaved_input(operands: Sequence[Any]) -> Tuple[str, Tuple[Any,
     # The map retains the intrinsic order of user symbols
     try:
         # collect all user symbols
-        symbol_set = set(itertools.chain.from_iterable(subscript_list))
+        symbol_set = set(itertools.chain.from_iterable(subscript_list + tmp_operands))
 
         # remove Ellipsis because it can not be compared with other objects
         symbol_set.discard(Ellipsis)
-- 
2.43.0


From 7b19d9e2f011c0aff872e565d3710b6a292cb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 20/38] fix: get_shape of empty sequences

---
 opt_einsum/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 5a12772..2f16e6e 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -192,6 +192,8 @@ def get_shape(x: Any) -> TensorShapeType:
         shape = []
         while isinstance(x, Sequence) and not isinstance(x, _BaseTypes):
             shape.append(len(x))
+            if len(x) == 0:
+                break
             x = x[0]
         return tuple(shape)
     else:
-- 
2.43.0


From 3ec58653445e2d9f781782e0130164b27bfb2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 21/38] fix: write scalar results of BLAS steps into out

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index fef5bc4..6475176 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -695,7 +695,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[...] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From da376ea5cff952340598c4c86e28bb1bf5b614e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:49 +0000
Subject: [PATCH 22/38] fix: interleaved input with optimize=False inside a
 sharing context

---
 opt_einsum/sharing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index e67bd9b..40465a1 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -171,7 +171,6 @@ def einsum_cache_wrap(einsum: Any) -> Any:
             return einsum(*args, backend=backend, **kwargs)
 
         # hash modulo commutativity by computing a canonical ordering and names
-        equation = args[0]
         inputs, output, operands = parse_einsum_input(args)
         inputs = inputs.split(",")
 
@@ -184,7 +183,7 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         canonical_equation = alpha_canonicalize(canonical_inputs + "->" + output)
 
         key = "einsum", backend, canonical_equation, canonical_ids
-        return _memoize(key, einsum, equation, *operands, backend=backend)
+        return _memoize(key, einsum, *args, backend=backend)
 
     return cached_einsum
 
-- 
2.43.0


From 4fc16e59586604ce6e47370f61cb2f5391d56da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:24 +0000
Subject: [PATCH 23/38] fix: tensorflow graphs keep a placeholder per operand
 when the same array is passed twice

While intermediates are shared, converting the same array twice gives one placeholder. An expression whose
graph was built like that fed that placeholder twice in later calls, so one of the operands was ignored.
---
 opt_einsum/backends/tensorflow.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/tensorflow.py b/opt_einsum/backends/tensorflow.py
index a6544f8..54a673e 100644
--- a/opt_einsum/backends/tensorflow.py
+++ b/opt_einsum/backends/tensorflow.py
@@ -59,7 +59,14 @@ def build_expression_graph(arrays, expr):
     """Build a tensorflow function based on ``arrays`` and ``expr``."""
     tf, _, _ = _get_tensorflow_and_device()
 
-    placeholders = [to_tensorflow(array) for array in arrays]
+    placeholders = []
+    for array in arrays:
+        placeholder = to_tensorflow(array)
+        if has_array_interface(array) and any(placeholder is other for other in placeholders):
+            # the same array appears twice (and conversions are being shared), but later calls may supply different ones
+            placeholder = tf.placeholder(array.dtype, array.shape)
+        placeholders.append(placeholder)
+
     graph = expr._contract(placeholders, backend="tensorflow")
 
     def tensorflow_contract(*arrays):
-- 
2.43.0


From 7b5431b93933317f1b9d7a7621db1aade1082a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:32 +0000
Subject: [PATCH 24/38] fix: RandomGreedy accepts a contraction of a single
 operand

Its greedy path is [(0,)], which the cost computation could not unpack.
---
 opt_einsum/path_random.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 579e81e..30c100a 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -285,6 +285,15 @@ def ssa_path_compute_cost(
     """Compute the flops and max size of an ssa path."""
     inputs = list(map(frozenset, inputs))
     output = frozenset(output)
+
+    if len(inputs) == 1:
+        # a single operand is only brought to the shape of the output
+        (k1,) = inputs
+        return (
+            helpers.flop_count(k1, bool(k1 - output), 1, size_dict),
+            helpers.compute_size_by_dict(k1 & output, size_dict),
+        )
+
     remaining = set(range(len(inputs)))
     total_cost = 0
     max_size = 0
-- 
2.43.0


From 418a66abc401b73c57aa363c5bf5f104eabadf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:08 +0000
Subject: [PATCH 25/38] fix: options of einsum (dtype, casting, order) work
 with every path

They were handed to tensordot, which does not take them, whenever a step could use it, so whether
contract(..., dtype=...) raised TypeError depended on the path. Such calls now use einsum for all steps.
---
 opt_einsum/contract.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 6475176..dea051d 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -649,6 +649,9 @@ def _core_contract(
     # try and do as much as possible without einsum if not available
     no_einsum = not backends.has_einsum(backend)
 
+    # options of einsum (e.g. ``dtype``) have no equivalent in tensordot
+    einsum_options = bool(_filter_einsum_defaults(kwargs))  # type: ignore
+
     # Start contraction loop
     for num, contraction in enumerate(contraction_list):
         inds, idx_rm, einsum_str, _, blas_flag = contraction
@@ -666,7 +669,7 @@ def _core_contract(
         handle_out = specified_out and ((num + 1) == len(contraction_list))
 
         # Call tensordot (check if should prefer einsum, but only if available)
-        if blas_flag and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
+        if blas_flag and not einsum_options and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
             # Checks have already been handled
             input_str, results_index = einsum_str.split("->")
             input_left, input_right = input_str.split(",")
@@ -687,7 +690,7 @@ def _core_contract(
                 axes = ((), ())
 
             # Contract!
-            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend, **kwargs)
+            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend)
 
             # Build a new view if needed
             if (tensor_result != results_index) or handle_out:
-- 
2.43.0


From 5c47fa9a42641d22e9002404121924ded458fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:39 +0000
Subject: [PATCH 26/38] fix: theano graphs keep a variable per operand when the
 same array is passed twice

While intermediates are shared, converting the same array twice gives one variable, and theano.function refuses a
variable that is listed twice among its inputs.
---
 opt_einsum/backends/theano.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/theano.py b/opt_einsum/backends/theano.py
index 5b54aab..f0f390f 100644
--- a/opt_einsum/backends/theano.py
+++ b/opt_einsum/backends/theano.py
@@ -24,7 +24,14 @@ def build_expression(arrays, expr):
     """Build a theano function based on ``arrays`` and ``expr``."""
     import theano
 
-    in_vars = [to_theano(array) for array in arrays]
+    in_vars = []
+    for array in arrays:
+        in_var = to_theano(array)
+        if has_array_interface(array) and any(in_var is other for other in in_vars):
+            # the same array appears twice (and conversions are being shared), but later calls may supply different ones
+            in_var = theano.tensor.TensorType(dtype=array.dtype, broadcastable=[False] * len(array.shape))()
+        in_vars.append(in_var)
+
     out_var = expr._contract(in_vars, backend="theano")
 
     # don't supply constants to graph
-- 
2.43.0


From ee51305a4b3fe31fa2860106a0013ec2e54e40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:16 +0000
Subject: [PATCH 27/38] fix: dynamic programming with a combination factor
 accepts contractions of any size

The factor of 'combo-<factor>' and 'limit-<factor>' was a float, so that an OverflowError was raised when the product
of all sizes exceeds the range of floats (which a chain of 60 bonds of dimension 200 does), and a custom cost
function did the same.
---
 opt_einsum/paths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5687906..b6f14b8 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1077,7 +1077,7 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
     minimize, custom_factor = match.groups()
-    factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
+    factor = int(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
         return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
@@ -1213,7 +1213,9 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
+        naive_cost = naive_scale
+        if naive_cost != float("inf"):
+            naive_cost *= len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 068b67f01ef6b4ff23d56855c107789a9f03f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:16 +0000
Subject: [PATCH 28/38] fix: random greedy searches accept intermediates of any
 size

An OverflowError was raised (also by 'auto-hq' and 'random-greedy') as soon as the size of a candidate, or a
difference of two costs, exceeded the range of floats, for which 1024 open legs of dimension 2 are enough.
---
 opt_einsum/path_random.py | 11 ++++++++---
 opt_einsum/paths.py       |  9 ++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 30c100a..55804f7 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -6,6 +6,7 @@ import math
 import time
 from collections import deque
 from decimal import Decimal
+from fractions import Fraction
 from random import choices as random_choices
 from random import seed as random_seed
 from typing import Any, Dict, Generator, Iterable, List, Optional, Tuple, Union
@@ -255,15 +256,19 @@ def thermal_chooser(queue, remaining, nbranch=8, temperature=1, rel_temperature=
     cmin = costs[0]
 
     # adjust by the overall scale to account for fluctuating absolute costs
-    if rel_temperature:
-        temperature *= max(1, abs(cmin))
+    scale = max(1, abs(cmin)) if rel_temperature else 1
 
     # compute relative probability for each potential contraction
     if temperature == 0.0:
         energies = [1 if c == cmin else 0 for c in costs]
     else:
         # shift by cmin for numerical reasons
-        energies = [math.exp(-(c - cmin) / temperature) for c in costs]
+        try:
+            energies = [math.exp(-(c - cmin) / (temperature * scale)) for c in costs]
+        except OverflowError:
+            # costs beyond the range of floats
+            exact_scale = Fraction(temperature) * Fraction(scale)
+            energies = [math.exp(-min((Fraction(c) - Fraction(cmin)) / exact_scale, 1000)) for c in costs]
 
     # randomly choose a contraction based on energies
     (chosen,) = random_choices(range(n), weights=energies)
diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index b6f14b8..74c267b 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -8,6 +8,7 @@ import operator
 import random
 import re
 from collections import Counter, defaultdict
+from fractions import Fraction
 from typing import Any, Callable, Dict, FrozenSet, Generator, List, Optional, Sequence, Set, Tuple, Union
 from typing import Counter as CounterType
 
@@ -327,7 +328,13 @@ def cost_memory_removed_jitter(size12: int, size1: int, size2: int, k12: int, k1
     """Like memory-removed, but with a slight amount of noise that breaks ties
     and thus jumbles the contractions a bit.
     """
-    return random.gauss(1.0, 0.01) * (size12 - size1 - size2)
+    jitter = random.gauss(1.0, 0.01)
+    removed = size12 - size1 - size2
+    try:
+        return jitter * removed
+    except OverflowError:
+        # sizes beyond the range of floats
+        return int(Fraction(jitter) * removed)
 
 
 _COST_FNS = {
-- 
2.43.0


From 948671d0c79630eb8a3fba191c31f56558de2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:47 +0000
Subject: [PATCH 29/38] fix: branch searches with a float cutoff accept
 contractions of any size

An OverflowError was raised as soon as the FLOP count of a step exceeded the range of floats.
---
 opt_einsum/paths.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 74c267b..f533e80 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -343,6 +343,14 @@ _COST_FNS = {
 }
 
 
+def _exceeds(flops: int, factor: float, best: int) -> bool:
+    """Whether ``flops > factor * best``, also for integers beyond the range of floats."""
+    try:
+        return flops > factor * best
+    except OverflowError:
+        return factor != float("inf") and flops > Fraction(factor) * best
+
+
 class BranchBound(PathOptimizer):
     def __init__(
         self,
@@ -452,7 +460,7 @@ class BranchBound(PathOptimizer):
                 if new_flops < self.best_progress[len(inputs)]:
                     self.best_progress[len(inputs)] = new_flops
                 # sieve based on current progress relative to best
-                elif new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]:
+                elif _exceeds(new_flops, self.cutoff_flops_factor, self.best_progress[len(inputs)]):
                     return None
 
                 # sieve based on memory limit
-- 
2.43.0


From 59b2def44a565bb6386630b735908e22d118d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:24 +0000
Subject: [PATCH 30/38] fix: the shape of a scalar can be given as an empty
 list when its term has an ellipsis

Only an empty tuple was recognised, so that an axis was made up for the scalar and the request was rejected.
---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 2f16e6e..bfd8e85 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -377,7 +377,7 @@ def parse_einsum_input(operands: Any, shapes: bool = False) -> Tuple[str, str, L
                     raise ValueError("Invalid Ellipses.")
 
                 # Take into account numerical values
-                if operand_shapes[num] == ():
+                if len(operand_shapes[num]) == 0:
                     ellipse_count = 0
                 else:
                     ellipse_count = max(len(operand_shapes[num]), 1) - (len(sub) - 3)
-- 
2.43.0


From eae4881751a0f019f1daac6dc5786d05e72edd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 31/38] fix: reused optimizers notice a contraction that was
 modified in place

The arguments of the first call were kept by reference, so that a caller who changed them (say the dictionary of
sizes) and called again got the path of the old contraction instead of the ValueError.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index f533e80..7a4d242 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -60,7 +60,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # compare with copies, as the caller might modify its own objects
+        args = (list(map(frozenset, inputs)), frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From dae311ca3b3a7399d3f87d88d2e378112951f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:00 +0000
Subject: [PATCH 32/38] fix: branch searches report the size of a path that
 ends in one combined step

---
 opt_einsum/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 7a4d242..d972636 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -468,7 +468,9 @@ class BranchBound(PathOptimizer):
                 if (memory_limit not in _UNLIMITED_MEM) and (size12 > memory_limit):  # type: ignore
                     # terminate path here, but check all-terms contract first
                     new_flops = flops + _compute_oversize_flops(inputs, remaining, output_, size_dict)
-                    if new_flops < self.best["flops"]:
+                    new_size = max(size, compute_size_by_dict(output, size_dict))
+                    if self.better(new_flops, new_size, self.best["flops"], self.best["size"]):
+                        self.best["size"] = new_size
                         self.best["flops"] = new_flops
                         self.best["ssa_path"] = path + (tuple(remaining),)
                     return None
-- 
2.43.0


From aacab63576be6cc4f140422b76a49a5b2a04e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:00 +0000
Subject: [PATCH 33/38] fix: random greedy trials do not depend on the
 iteration order of sets

---
 opt_einsum/paths.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index d972636..e6f06ad 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -693,10 +693,13 @@ def ssa_greedy_optimize(
     # Compute separable part of the objective function for contractions.
     footprints = {key: compute_size_by_dict(key, sizes) for key in remaining}
 
-    # Find initial candidate contractions.
+    # Find initial candidate contractions, in an order that does not depend on
+    # that of sets, since the cost function might be random.
     queue: List[GreedyContractionType] = []
-    for dim, dim_keys in dim_to_keys.items():
-        dim_keys_list = sorted(dim_keys, key=remaining.__getitem__)
+    for dim_keys_list in sorted(
+        (sorted(dim_keys, key=remaining.__getitem__) for dim_keys in dim_to_keys.values()),
+        key=lambda keys: list(map(remaining.__getitem__, keys)),
+    ):
         for i, k1 in enumerate(dim_keys_list[:-1]):
             k2s_guess = dim_keys_list[1 + i :]
             _push_candidate(
@@ -747,7 +750,7 @@ def ssa_greedy_optimize(
                 footprints,
                 dim_ref_counts,
                 k1,
-                list(k2s),
+                sorted(k2s, key=remaining.__getitem__),
                 queue,
                 push_all,
                 cost_fn,
-- 
2.43.0


From c1069e7eedae87fb6d044b97cf0ab99818d68a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:00 +0000
Subject: [PATCH 34/38] fix: dynamic programming with a cost cap of zero
 terminates

---
 opt_einsum/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index e6f06ad..1e663a2 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1327,7 +1327,7 @@ class DynamicProgramming(PathOptimizer):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
                 # increase cost cap for next iteration:
-                cost_cap = cost_increment * cost_cap
+                cost_cap = cost_increment * max(cost_cap, 1)
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0


From 7c93ff51166a1c76437fb386f8c65c01b6d9222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:10 +0000
Subject: [PATCH 35/38] fix: fill out also when a library's einsum does not
 support it

---
 opt_einsum/contract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index dea051d..463dad8 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -703,10 +703,14 @@ def _core_contract(
         else:
             # Call einsum
             out_kwarg: Union[None, ArrayType] = None
-            if handle_out:
+            if handle_out and backend == "numpy":
                 out_kwarg = out
             new_view = _einsum(einsum_str, *tmp_operands, backend=backend, out=out_kwarg, **kwargs)
 
+            # the einsum of other libraries might not support ``out``
+            if handle_out and out_kwarg is None:
+                out[...] = new_view  # type: ignore
+
         # Append new items and dereference what we can
         operands.append(new_view)
         del tmp_operands, new_view
-- 
2.43.0


From 8c9c2917a147fe4cb3f3064365de16d64bb050bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:44 +0000
Subject: [PATCH 36/38] fix: optimize=False uses the library of the arrays or
 the backend asked for

---
 opt_einsum/contract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 463dad8..6ac7b8f 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -582,7 +582,11 @@ def contract(
 
     # If no optimization, run pure einsum
     if optimize is False:
-        return _einsum(*operands_list, out=out, **kwargs)
+        first = operands[0] if isinstance(subscripts, str) and operands else subscripts
+        backend = parse_backend([first], backend)
+        if backend == "numpy" or not backends.has_einsum(backend):
+            return _einsum(*operands_list, out=out, **kwargs)
+        use_blas = False
 
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
-- 
2.43.0


From 0f182f4337b345e490eaead4bc79c211f50fafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:50 +0000
Subject: [PATCH 37/38] fix: transpose of a scalar with torch

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..2363387 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
-- 
2.43.0


From 1c38cc92ef55eb0c4f5e1af0455401354e9fb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:33 +0000
Subject: [PATCH 38/38] fix: cancel the remaining jobs when a random trial
 raises

---
 opt_einsum/path_random.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 55804f7..9b25000 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -88,7 +88,7 @@ class RandomOptimizer(paths.PathOptimizer):
 
         self._repeats_start = 0
         self._executor: Any
-        self._futures: Any
+        self._futures: Any = deque()
 
     @property
     def path(self) -> PathType:
@@ -165,6 +165,18 @@ class RandomOptimizer(paths.PathOptimizer):
     ) -> PathType:
         self._check_args_against_first_call(inputs, output, size_dict)
 
+        try:
+            return self._search(inputs, output, size_dict)
+        finally:
+            # whether the search ended, ran out of time or a trial raised
+            self._cancel_futures()
+
+    def _search(
+        self,
+        inputs: List[ArrayIndexType],
+        output: ArrayIndexType,
+        size_dict: Dict[str, int],
+    ) -> PathType:
         # start a timer?
         if self.max_time is not None:
             t0 = time.time()
@@ -199,7 +211,6 @@ class RandomOptimizer(paths.PathOptimizer):
             if (self.max_time is not None) and (time.time() > t0 + self.max_time):
                 break
 
-        self._cancel_futures()
         return self.path
 
     def __del__(self):
-- 
2.43.0

