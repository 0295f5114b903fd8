-------------------------- MODULE MC_SharingFine --------------------------
(* Threads switched between any two of: looking up a result, starting to    *)
(* compute it, finishing, storing it, returning.  Beside this machine runs  *)
(* the observer that judges logs of real threads (T_Share): it must accept  *)
(* every log the machine produces (ObserverSound), and the machine must     *)
(* keep threads apart (Isolated) and never answer with a wrong result       *)
(* (Right).  Atomic = TRUE makes the observer demand what only holds if     *)
(* look-up to store is one step: TLC then finds an accepted log rejected.   *)
EXTENDS Sharing, TLC
CONSTANTS Threads, MaxRuns, Atomic, Shared
VARIABLES st, real, S, fresh, ok, runs
vars == <<st, real, S, fresh, ok, runs>>
E1(ins, out) == [ins |-> ins, out |-> out]
Prog ==
  << << [kind |-> "einsum", refs |-> <<1, 2>>, spec |-> E1(<<<<1, 2>>, <<2, 1>>>>, <<1, 2>>)] >>,
     << [kind |-> "einsum", refs |-> <<2, 1>>, spec |-> E1(<<<<3, 1>>, <<1, 3>>>>, <<1, 3>>)],
        [kind |-> "einsum", refs |-> <<-1>>, spec |-> E1(<<<<1, 2>>>>, <<1>>)] >> >>
Leaves == <<1, 2>>
Own(t) == IF Shared THEN 1 ELSE t
St0 == [pc |-> "idle", prog |-> <<>>, vals |-> <<>>, op |-> <<>>, res |-> 0]
Ids == { Own(t) : t \in Threads }
Init == /\ st = [t \in Threads |-> St0] /\ real = [x \in Ids |-> {}]
        /\ S = [Coarse([t \in Threads |-> <<Own(t)>>], [x \in Ids |-> {}], [t \in Threads |-> Idle]) EXCEPT !.fine = ~Atomic]
        /\ fresh = 100 /\ ok = TRUE /\ runs = [t \in Threads |-> 0]
Op(t) == LET s == st[t].prog[Len(st[t].vals) + 1] IN
         [kind |-> s.kind, spec |-> s.spec, args |-> [i \in 1..Len(s.refs) |-> IF s.refs[i] > 0 THEN Leaves[s.refs[i]] ELSE st[t].vals[-s.refs[i]]]]
Run(t) == /\ st[t].pc = "idle" /\ runs[t] < MaxRuns /\ runs' = [runs EXCEPT ![t] = @ + 1]
          /\ \E p \in 1..Len(Prog) :
               /\ st' = [st EXCEPT ![t] = [St0 EXCEPT !.pc = "look", !.prog = Prog[p]]]
               /\ S' = Seen(S, StartTo(S, t, Prog[p], Leaves), t, 0, {})
          /\ UNCHANGED <<real, fresh, ok>>
Look(t) ==
  /\ st[t].pc = "look" /\ Len(st[t].vals) < Len(st[t].prog) /\ UNCHANGED <<real, S, fresh, ok, runs>>
  /\ LET H == { h \in real[Own(t)] : MustSame(h.op, Op(t)) } IN
     IF H # {} THEN \E h \in H : st' = [st EXCEPT ![t].vals = Append(@, h.res)]
     ELSE st' = [st EXCEPT ![t].pc = "miss", ![t].op = Op(t)]
Exec(t) == /\ st[t].pc = "miss" /\ st' = [st EXCEPT ![t].pc = "exec"]
           /\ ok' = (ok /\ MayExec(S, t, st[t].op) # {})
           /\ S' = Seen(S, ExecTo(S, t, st[t].op), t, 0, {}) /\ UNCHANGED <<real, fresh, runs>>
Fin(t) == /\ st[t].pc = "exec" /\ fresh' = fresh + 1 /\ st' = [st EXCEPT ![t].pc = "store", ![t].res = fresh]
          /\ S' = Seen(S, DoneTo(S, t, fresh), t, Own(t), {[op |-> st[t].op, res |-> fresh]}) /\ UNCHANGED <<real, ok, runs>>
(* a dictionary: the later of two results of the same operation replaces    *)
(* the earlier                                                              *)
Store(t) == /\ st[t].pc = "store" /\ UNCHANGED <<S, fresh, ok, runs>>
            /\ real' = [real EXCEPT ![Own(t)] = { h \in @ : ~MustSame(h.op, st[t].op) } \cup {[op |-> st[t].op, res |-> st[t].res]}]
            /\ st' = [st EXCEPT ![t].pc = "look", ![t].vals = Append(@, st[t].res)]
Ret(t) == /\ st[t].pc = "look" /\ Len(st[t].vals) = Len(st[t].prog)
          /\ ok' = (ok /\ CanReturn(S, t) /\ CanReturnWith(S, t, st[t].vals[Len(st[t].vals)])) /\ S' = Seen(S, ReturnTo(S, t), t, 0, {})
          /\ st' = [st EXCEPT ![t] = St0] /\ UNCHANGED <<real, fresh, runs>>
Next == \E t \in Threads : Run(t) \/ Look(t) \/ Exec(t) \/ Fin(t) \/ Store(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
ObserverSound == ok
Isolated == ~Shared => \A t \in Threads : \A h \in real[t] : \A u \in Threads \ {t} : h \notin real[u]
(* what is held for an operation is what some thread computed for it *)
Right == \A x \in Ids : \A h \in real[x] : \E g \in S.store[x] : g.res = h.res /\ MaySame(g.op, h.op)
=============================================================================
