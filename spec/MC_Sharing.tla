---------------------------- MODULE MC_Sharing ----------------------------
(* All interleavings of threads that open and close contexts (fresh ones,  *)
(* or a cache known to all), run contractions whose operations may fail,   *)
(* up to MaxLen events.  Emits the event sequences for replay.             *)
EXTENDS Sharing, TLC, Json
CONSTANTS Threads, MaxLen, MaxDepth, Emit, Fail, Shared
VARIABLES S, hist, fresh, execd
vars == <<S, hist, fresh, execd>>

E1(ins, out) == [ins |-> ins, out |-> out]
(* programs over the operands 1, 2; 2 is a renamed and permuted 1, 4 has    *)
(* the tensordot of 3 as its first step, 5 sums what 1 computes             *)
Prog ==
  << << [kind |-> "einsum", refs |-> <<1, 2>>, spec |-> E1(<<<<1, 2>>, <<2, 1>>>>, <<1, 2>>)] >>,
     << [kind |-> "einsum", refs |-> <<2, 1>>, spec |-> E1(<<<<3, 1>>, <<1, 3>>>>, <<1, 3>>)] >>,
     << [kind |-> "tensordot", refs |-> <<1, 2>>, spec |-> [l |-> <<1>>, r |-> <<0>>]] >>,
     << [kind |-> "tensordot", refs |-> <<1, 2>>, spec |-> [l |-> <<1>>, r |-> <<0>>]],
        [kind |-> "transpose", refs |-> <<-1>>, spec |-> [axes |-> <<1, 0>>]] >>,
     << [kind |-> "einsum", refs |-> <<1, 2>>, spec |-> E1(<<<<1, 2>>, <<2, 1>>>>, <<1, 2>>)],
        [kind |-> "einsum", refs |-> <<-1>>, spec |-> E1(<<<<1, 2>>>>, <<1>>)] >> >>
Leaves == <<1, 2>>

Init == /\ S = Coarse([t \in Threads |-> <<>>], [x \in {1} |-> {}], [t \in Threads |-> Idle])
        /\ hist = <<>> /\ fresh = 2 /\ execd = <<>>
Ev(e, t, a) == hist' = Append(hist, [e |-> e, t |-> t, a |-> a])
Enter(t) ==
  /\ S.run[t].st = "idle" /\ Len(S.stack[t]) < MaxDepth
  /\ \/ S' = EnterTo(S, t, fresh) /\ fresh' = fresh + 1 /\ Ev("new", t, fresh)
     \/ Shared /\ S' = EnterTo(S, t, 1) /\ UNCHANGED fresh /\ Ev("use", t, 1)
  /\ UNCHANGED execd
(* resume a cache that was created earlier *)
Resume(t) ==
  /\ S.run[t].st = "idle" /\ Len(S.stack[t]) < MaxDepth /\ UNCHANGED <<fresh, execd>>
  /\ \E x \in (DOMAIN S.store) \ {1} : S' = EnterTo(S, t, x) /\ Ev("use", t, x)
Exit(t) == /\ S.run[t].st = "idle" /\ S.stack[t] # <<>> /\ S' = ExitTo(S, t) /\ Ev("exit", t, 0) /\ UNCHANGED <<fresh, execd>>
(* start a contraction; it proceeds to its first execution or returns *)
Settle(T, t) == IF NextExec(T, t) = {} THEN ReturnTo(T, t) ELSE ExecTo(T, t, CHOOSE o \in NextExec(T, t) : TRUE)
Start(t) == /\ S.run[t].st = "idle" /\ UNCHANGED <<fresh, execd>>
            /\ \E p \in 1..Len(Prog) : S' = Settle(StartTo(S, t, Prog[p], Leaves), t) /\ Ev("run", t, p)
Finish(t) == /\ S.run[t].st = "exec" /\ fresh' = fresh + 1
             /\ S' = Settle(DoneTo(S, t, 100 + fresh), t) /\ Ev("fin", t, 0)
             /\ execd' = Append(execd, [t |-> t, cache |-> S.run[t].cache, op |-> S.run[t].op])
Raise(t) == Fail /\ S.run[t].st = "exec" /\ S' = FailTo(S, t) /\ Ev("raise", t, 0) /\ UNCHANGED <<fresh, execd>>
Next == Len(hist) < MaxLen /\ \E t \in Threads : Enter(t) \/ Resume(t) \/ Exit(t) \/ Start(t) \/ Finish(t) \/ Raise(t)
Spec == Init /\ [][Next]_vars

(* within a cache an operation is executed once, unless two threads were    *)
(* executing it at the same time                                            *)
OncePerCache ==
  \A i, j \in 1..Len(execd) : (i < j /\ execd[i].cache # 0 /\ execd[i].cache = execd[j].cache /\ execd[i].t = execd[j].t)
     => ~MustSame(execd[i].op, execd[j].op)
(* a cache holds only what was executed while it was innermost *)
OnlyOwn == \A x \in DOMAIN S.store : \A h \in S.store[x] : \E i \in 1..Len(execd) : execd[i].cache = x /\ execd[i].op = h.op
(* what a thread is executing under a context goes to a cache it entered *)
Isolated == \A t \in Threads : S.run[t].st = "exec" =>
               S.run[t].cache = IF S.stack[t] = <<>> THEN 0 ELSE S.stack[t][Len(S.stack[t])]
EmitAll == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
