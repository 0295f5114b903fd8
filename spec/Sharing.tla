------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* The sharing of intermediates.                                           *)
(*                                                                         *)
(* A primitive operation is [kind, args, spec]: a backend call on arrays   *)
(* (given by identity).  kinds: "einsum" (spec.ins, spec.out: labels),      *)
(* "tensordot" (spec.l, spec.r: paired axes), "transpose" (spec.axes).      *)
(*                                                                         *)
(* A program is what one contraction performs: a sequence of [kind, refs,  *)
(* spec]; a positive ref i is the i-th operand, a negative ref -k the      *)
(* result of step k.                                                       *)
(*                                                                         *)
(* The state of the machine is a record                                    *)
(*   stack  thread -> sequence of caches, innermost last                   *)
(*   store  cache  -> set of [op, res]: results held                       *)
(*   run    thread -> what the thread is doing (see Idle)                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rng(s) == { s[i] : i \in 1..Len(s) }
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* two label lists are renamings of one another *)
SamePattern(f, g) == Len(f) = Len(g) /\ \A i, j \in 1..Len(f) : (f[i] = f[j]) <=> (g[i] = g[j])
SameShapeOf(ss, tt) == Len(ss) = Len(tt) /\ \A i \in 1..Len(ss) : Len(ss[i]) = Len(tt[i])

Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
EinsumVia(p, a, b) ==
  LET n == Len(a.args)
      ins == [i \in 1..n |-> b.spec.ins[p[i]]] IN
  /\ \A i \in 1..n : a.args[i] = b.args[p[i]]
  /\ SameShapeOf(a.spec.ins, ins) /\ Len(a.spec.out) = Len(b.spec.out)
  /\ SamePattern(Flat(a.spec.ins) \o a.spec.out, Flat(ins) \o b.spec.out)
(* p keeps the relative order of equal operands *)
Stable(p, a) == \A i, j \in 1..Len(a.args) : (i < j /\ a.args[i] = a.args[j]) => p[i] < p[j]

Pairs(spec) == { <<spec.l[i], spec.r[i]>> : i \in 1..Len(spec.l) }

(* may the result of one serve as the result of the other? *)
MaySame(a, b) ==
  /\ a.kind = b.kind /\ Len(a.args) = Len(b.args)
  /\ CASE a.kind = "einsum" -> \E p \in Perms(Len(a.args)) : EinsumVia(p, a, b)
       [] a.kind = "tensordot" -> a.args = b.args /\ Pairs(a.spec) = Pairs(b.spec)
       [] a.kind = "transpose" -> a.args = b.args /\ a.spec.axes = b.spec.axes
       [] OTHER -> FALSE
(* must it?  (permutations among several uses of one and the same array are *)
(* left to the implementation)                                              *)
MustSame(a, b) ==
  IF a.kind = "einsum" /\ b.kind = "einsum" /\ Len(a.args) = Len(b.args)
  THEN \E p \in Perms(Len(a.args)) : EinsumVia(p, a, b) /\ Stable(p, a)
  ELSE IF a.kind = "tensordot" /\ b.kind = "tensordot"
       THEN a.args = b.args /\ a.spec.l = b.spec.l /\ a.spec.r = b.spec.r
       ELSE MaySame(a, b)

(***************************************************************************)
(* Contexts                                                                *)
(***************************************************************************)
Sharing(S, t) == S.stack[t] # <<>>
Inner(S, t) == S.stack[t][Len(S.stack[t])]
EnterTo(S, t, cid) ==
  [S EXCEPT !.stack[t] = Append(@, cid),
            !.store = [x \in DOMAIN S.store \cup {cid} |-> IF x \in DOMAIN S.store THEN S.store[x] ELSE {}]]
ExitTo(S, t) == [S EXCEPT !.stack[t] = SubSeq(@, 1, Len(@) - 1)]

(***************************************************************************)
(* Running a program.  confs is the set of possible positions: how many    *)
(* steps have been answered, and with which arrays.                        *)
(***************************************************************************)
Idle == [st |-> "idle", prog |-> <<>>, leaves |-> <<>>, confs |-> {}, op |-> [kind |-> "none", args |-> <<>>, spec |-> <<>>], cache |-> 0]
OpAt(r, cf) ==
  LET s == r.prog[cf.pc + 1] IN
  [kind |-> s.kind, spec |-> s.spec,
   args |-> [i \in 1..Len(s.refs) |-> IF s.refs[i] > 0 THEN r.leaves[s.refs[i]] ELSE cf.vals[-s.refs[i]]]]
Held(S, t) == IF Sharing(S, t) THEN S.store[Inner(S, t)] ELSE {}
Advance(cf, res) == [pc |-> cf.pc + 1, vals |-> Append(cf.vals, res)]
RECURSIVE Close(_, _, _, _)
(* everything reachable by answering steps from the cache *)
Close(S, t, r, F) ==
  LET N == UNION { IF cf.pc >= Len(r.prog) THEN {}
                   ELSE { Advance(cf, h.res) : h \in { x \in Held(S, t) : MaySame(x.op, OpAt(r, cf)) } } : cf \in F }
  IN IF N \subseteq F THEN F ELSE Close(S, t, r, F \cup N)
(* Looking up, executing and storing are not one step when threads are      *)
(* switched anywhere (S.fine): then a thread has to find only what was      *)
(* stored for certain at its own last visible event (S.snap), and a result  *)
(* is stored for certain once the thread that computed it shows its next    *)
(* event (until then it is in S.pend).                                      *)
Must(S, t) == IF S.fine THEN (IF Sharing(S, t) THEN S.snap[t] ELSE {}) ELSE Held(S, t)
MustReuse(S, t, r, cf) == \E h \in Must(S, t) : MustSame(h.op, OpAt(r, cf))
Coarse(stack, store, run) == [stack |-> stack, store |-> store, run |-> run, fine |-> FALSE,
                              sure |-> store, pend |-> [t \in DOMAIN stack |-> {}], snap |-> [t \in DOMAIN stack |-> {}]]
(* bookkeeping at a visible event of t: U is the state after it, new what   *)
(* it added to cache x                                                      *)
Seen(S, U, t, x, new) ==
  IF ~S.fine THEN U
  ELSE LET sure == [y \in DOMAIN U.store |-> (IF y \in DOMAIN S.sure THEN S.sure[y] ELSE {}) \cup { p.h : p \in { p \in S.pend[t] : p.x = y } }]
       IN [U EXCEPT !.sure = sure, !.pend[t] = { [x |-> x, h |-> h] : h \in new },
                    !.snap[t] = IF U.stack[t] = <<>> THEN {} ELSE sure[U.stack[t][Len(U.stack[t])]]]

StartTo(S, t, prog, leaves) ==
  LET r == [Idle EXCEPT !.st = "run", !.prog = prog, !.leaves = leaves, !.confs = {[pc |-> 0, vals |-> <<>>]}] IN
  [S EXCEPT !.run[t] = r]
(* positions at which operation b may be executed now *)
MayExec(S, t, b) ==
  LET r == S.run[t] IN
  { cf \in Close(S, t, r, r.confs) : /\ cf.pc < Len(r.prog) /\ ~MustReuse(S, t, r, cf)
                                     /\ MaySame(b, OpAt(r, cf)) }
ExecTo(S, t, b) ==
  [S EXCEPT !.run[t].st = "exec", !.run[t].op = b, !.run[t].confs = MayExec(S, t, b),
            !.run[t].cache = IF Sharing(S, t) THEN Inner(S, t) ELSE 0]
DoneTo(S, t, res) ==
  LET r == S.run[t] IN
  [S EXCEPT !.run[t].st = "run", !.run[t].confs = { Advance(cf, res) : cf \in r.confs },
            !.store = IF r.cache = 0 THEN @ ELSE [@ EXCEPT ![r.cache] = @ \cup {[op |-> r.op, res |-> res]}]]
FailTo(S, t) == [S EXCEPT !.run[t] = Idle]
CanReturn(S, t) == S.run[t].st = "run" /\ \E cf \in Close(S, t, S.run[t], S.run[t].confs) : cf.pc = Len(S.run[t].prog)
(* the array returned is the result of the last step *)
CanReturnWith(S, t, res) ==
  \E cf \in Close(S, t, S.run[t], S.run[t].confs) :
     cf.pc = Len(S.run[t].prog) /\ (cf.pc = 0 \/ cf.vals[cf.pc] = res)
ReturnTo(S, t) == [S EXCEPT !.run[t] = Idle]

(* The first operation the thread has to execute next, or none *)
NextExec(S, t) ==
  LET r == S.run[t]
      C == { cf \in Close(S, t, r, r.confs) : cf.pc < Len(r.prog) /\ ~MustReuse(S, t, r, cf) }
  IN { OpAt(r, cf) : cf \in C }
=============================================================================
