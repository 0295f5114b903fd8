-------------------------- MODULE MC_RandomSearch --------------------------
(* Every search of up to MaxCalls calls: serial and parallel, every window, *)
(* every place at which the time runs out or a trial raises an exception,   *)
(* every outcome of the trials.  `stop' is "time" or "fail" then.          *)
EXTENDS RandomSearch, TLC, Json, SequencesExt
CONSTANTS MaxCalls, MaxRep, MaxPre, Emit
VARIABLES minimize, script, done, m, phase, stop, hist, prev
vars == <<minimize, script, done, m, phase, stop, hist, prev>>
Outcomes == {[f |-> 1, s |-> 2], [f |-> 2, s |-> 1], [f |-> 2, s |-> 2]}
None == Begin(0, 0, 1, FALSE)
Init == /\ minimize \in {"flops", "size"} /\ script = <<>> /\ done = 0 /\ m = None
        /\ phase = "idle" /\ stop = "" /\ hist = <<>> /\ prev = <<9, 9>>
Call == /\ phase = "idle" /\ Len(hist) < MaxCalls
        /\ \E rep \in 1..MaxRep, pre \in 1..MaxPre, par \in BOOLEAN :
             /\ (par \/ pre = 1)
             /\ m' = Begin(done, rep, pre, par)
        /\ phase' = "call" /\ stop' = "" /\ UNCHANGED <<minimize, script, done, hist, prev>>
(* another contraction: refused without any effect *)
Foreign == /\ phase = "idle" /\ Len(hist) < MaxCalls /\ done > 0
           /\ hist' = Append(hist, [foreign |-> TRUE, rep |-> 0, pre |-> 1, par |-> FALSE, stop |-> 0, fail |-> FALSE])
           /\ UNCHANGED <<minimize, script, done, m, phase, stop, prev>>
Reveal(o) == script' = IF Len(script) > done THEN script ELSE Append(script, o)
Consume(o) == Reveal(o) /\ done' = done + 1
Run == phase = "call" /\ stop = "" /\ CanRun(m, done) /\ m' = Ran(m) /\ (\E o \in Outcomes : Consume(o))
       /\ stop' \in {"", "time"} /\ UNCHANGED <<minimize, phase, hist, prev>>
Submit == /\ phase = "call" /\ stop = "" /\ CanSubmit(m, m.base + m.sub)
          /\ m' = Submitted(m, m.base + m.sub) /\ UNCHANGED <<minimize, script, done, phase, stop, hist, prev>>
Take == phase = "call" /\ stop = "" /\ CanTake(m, done) /\ m' = Taken(m, done) /\ (\E o \in Outcomes : Consume(o))
        /\ stop' \in {"", "time"} /\ UNCHANGED <<minimize, phase, hist, prev>>
(* the trial raises; the same number is tried again in the next call *)
Fail == /\ phase = "call" /\ stop = "" /\ CanFail(m, done)
        /\ m' = Failed(m, done) /\ stop' = "fail" /\ UNCHANGED <<minimize, script, done, phase, hist, prev>>
Cancel == /\ phase = "call" /\ stop # "" /\ m.out # {}
          /\ \E r \in m.out : m' = Cancelled(m, r)
          /\ UNCHANGED <<minimize, script, done, phase, stop, hist, prev>>
BestScore == IF done = 0 THEN <<9, 9>> ELSE Score(minimize, script[CHOOSE i \in BestSet(minimize, script, done) : TRUE])
Return == /\ phase = "call" /\ m.out = {} /\ (stop # "" \/ m.used = m.rep)
          /\ phase' = "idle" /\ hist' = Append(hist, [foreign |-> FALSE, rep |-> m.rep, pre |-> m.pre, par |-> m.par, stop |-> IF m.used < m.rep THEN m.used ELSE 0, fail |-> stop = "fail"])
          /\ prev' = BestScore /\ UNCHANGED <<minimize, script, done, m, stop>>
Next == Call \/ Foreign \/ Run \/ Submit \/ Take \/ Fail \/ Cancel \/ Return
Spec == Init /\ [][Next]_vars

Window == Cardinality(m.out) <= m.pre
Contiguous == done = m.base + m.used \/ phase = "idle"
OutExact == phase = "call" /\ m.par /\ stop = "" => m.out = { r \in m.base..(m.base + m.sub - 1) : r >= done }
NothingLeft == phase = "idle" => m.out = {}
NeverWorse == done > 0 => ~LexLt(prev, BestScore)
EmitAll == (Emit /\ phase = "idle" /\ Len(hist) = MaxCalls) =>
             PrintT(<<"OUT", ToJson([min |-> minimize, script |-> script, calls |-> hist])>>)
NeverStuck == phase = "call" => ENABLED Next
=============================================================================
