-------------------------- MODULE MC_SharingHeap --------------------------
(***************************************************************************)
(* Why cached results stay right although operations are looked up by the  *)
(* identity (address) of arrays: addresses are reused when arrays die, so  *)
(* every array that occurs in a key has to be kept alive by the cache.     *)
(*                                                                         *)
(* Variables x \in Vars refer to arrays or to nothing; an array has an     *)
(* address and a content; it dies when no variable and no cache refers to  *)
(* it.  Operation k on content v has the result F(k, v); a result is a new *)
(* array, held by the cache and dropped by the user.  Pin = FALSE models a *)
(* cache that does not keep the arrays it is keyed by alive: TLC then      *)
(* finds a wrong answer.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vars, NAddr, Contents, Ops, NCaches, MaxLen, Pin, Emit
VARIABLES var, cont, cache, pins, live, stack, answers, hist
vars == <<var, cont, cache, pins, live, stack, answers, hist>>
(* var: x -> address or 0;  cont: address -> content;  cache: id -> set of  *)
(* [key, val];  pins: id -> addresses kept;  live: ids of caches that the   *)
(* user still holds;  stack: open contexts                                  *)
F(k, v) == 10 * k + v
Held(vv, pp) == { vv[x] : x \in Vars } \cup UNION { pp[i] : i \in 1..NCaches }
Free == (1..NAddr) \ Held(var, pins)
Ev(e, a, b) == hist' = Append(hist, [e |-> e, a |-> a, b |-> b])
Init == /\ var = [x \in Vars |-> 0] /\ cont = [a \in 1..NAddr |-> 0] /\ cache = [i \in 1..NCaches |-> {}]
        /\ pins = [i \in 1..NCaches |-> {}] /\ live = {} /\ stack = <<>> /\ answers = {} /\ hist = <<>>
(* a new array takes any free address *)
New(x, v) == /\ \E a \in (1..NAddr) \ Held([var EXCEPT ![x] = 0], pins) : var' = [var EXCEPT ![x] = a] /\ cont' = [cont EXCEPT ![a] = v]
             /\ Ev("new", x, v) /\ UNCHANGED <<cache, pins, live, stack, answers>>
Drop(x) == var[x] # 0 /\ var' = [var EXCEPT ![x] = 0] /\ Ev("drop", x, 0) /\ UNCHANGED <<cont, cache, pins, live, stack, answers>>
Open(i) == /\ \A j \in 1..Len(stack) : stack[j] # i
           /\ Len(stack) < 2 /\ live' = live \cup {i} /\ stack' = Append(stack, i) /\ Ev("open", i, 0)
           /\ IF i \in live THEN UNCHANGED <<cache, pins>> ELSE cache' = [cache EXCEPT ![i] = {}] /\ pins' = [pins EXCEPT ![i] = {}]
           /\ UNCHANGED <<var, cont, answers>>
Close == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Ev("close", 0, 0) /\ UNCHANGED <<var, cont, cache, pins, live, answers>>
(* the user forgets a cache that is not open *)
Forget(i) == /\ i \in live /\ \A j \in 1..Len(stack) : stack[j] # i
             /\ live' = live \ {i} /\ cache' = [cache EXCEPT ![i] = {}] /\ pins' = [pins EXCEPT ![i] = {}]
             /\ Ev("forget", i, 0) /\ UNCHANGED <<var, cont, stack, answers>>
Op(x, k) ==
  /\ var[x] # 0
  /\ LET a == var[x]
         right == F(k, cont[a]) IN
     /\ Ev("op", x, k)
     /\ IF stack = <<>> THEN answers' = {<<right, right>>} /\ UNCHANGED <<cache, pins>>
        ELSE LET i == stack[Len(stack)]
                 H == { h \in cache[i] : h.key = <<k, a>> } IN
             IF H # {} THEN answers' = { <<h.val, right>> : h \in H } /\ UNCHANGED <<cache, pins>>
             ELSE /\ answers' = {<<right, right>>}
                  /\ cache' = [cache EXCEPT ![i] = @ \cup {[key |-> <<k, a>>, val |-> right]}]
                  /\ pins' = IF Pin THEN [pins EXCEPT ![i] = @ \cup {a}] ELSE pins
  /\ UNCHANGED <<var, cont, live, stack>>
Next == Len(hist) < MaxLen /\ \/ \E x \in Vars : \/ Drop(x) \/ \E v \in Contents : New(x, v) \/ \E k \in Ops : Op(x, k)
                              \/ \E i \in 1..NCaches : Open(i) \/ Forget(i)
                              \/ Close
Spec == Init /\ [][Next]_vars
NoFalseHit == \A p \in answers : p[1] = p[2]
View == <<var, cont, cache, pins, live, stack, answers>>
EmitAll == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
