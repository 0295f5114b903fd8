------------------------------ MODULE T_Parser ------------------------------
(* A case is a list of requests, each a string (interleaved requests are   *)
(* written as the string they denote), operand shapes, and what the entry  *)
(* points of the library did with it.                                      *)
(*  k = "accept"  which exception, if any, each entry point raised         *)
(*  k = "mean"    values, paths and parses; all requests of one case       *)
(*                denote the same contraction                              *)
(*  k = "expect"  a single call with a fixed expectation                   *)
EXTENDS Parser, Einsum, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

(* the first reason among a sequence of verdicts *)
First(vs) == LET bad == { i \in 1..Len(vs) : vs[i] # "ok" } IN IF bad = {} THEN "ok" ELSE vs[MinOf(bad)]

JudgeAccept(q) ==
  LET p == Parse(q.str, q.shapes) IN
  First([i \in 1..Len(q.res) |->
    LET e == q.res[i].e IN
    CASE p.st = "valid" -> IF e = "" THEN "ok" ELSE "valid-request-raised-" \o e \o "-in-" \o q.res[i].fn
      [] p.st = "invalid" -> IF e = "ValueError" THEN "ok"
                             ELSE IF e = "" THEN "accepted-bad-" \o p.why \o "-in-" \o q.res[i].fn
                             ELSE "bad-" \o p.why \o "-raised-" \o e \o "-in-" \o q.res[i].fn
      [] OTHER -> IF e \in {"", "ValueError"} THEN "ok" ELSE "unspecified-raised-" \o e])

(* labels replaced by the order in which they first occur *)
Canon(ins, out) ==
  LET all == FlattenSeq(ins) \o out
      firstAt(x) == MinOf(Pos(all, x)) IN
  [ins |-> [i \in 1..Len(ins) |-> [j \in 1..Len(ins[i]) |-> firstAt(ins[i][j])]],
   out |-> [j \in 1..Len(out) |-> firstAt(out[j])]]

JudgeMeanOne(q, p, data, ref) ==
  First([i \in 1..Len(q.res) |->
    LET o == q.res[i] IN
    IF o.e # "" THEN "raised-" \o o.e \o "-in-" \o o.fn
    ELSE CASE o.kind = "value" -> (IF o.shape # ref.shape THEN "wrong-shape-" \o o.fn
                                   ELSE IF o.data # ref.data THEN "wrong-value-" \o o.fn ELSE "ok")
           [] o.kind = "parse" -> (IF Canon(o.ins, o.out) = Canon(p.ins, p.out) THEN "ok" ELSE "wrong-parse")
           [] o.kind = "path" -> "ok"
           [] OTHER -> "not-numeric-" \o o.fn])

PathsOf(k) == { o.path : o \in { x \in UNION { Elems(k.reqs[i].res) : i \in 1..Len(k.reqs) } : x.kind = "path" /\ x.e = "" } }

JudgeMean(k) ==
  LET ps == [i \in 1..Len(k.reqs) |-> Parse(k.reqs[i].str, k.reqs[i].shapes)] IN
  IF \E i \in 1..Len(ps) : ps[i].st # "valid" THEN (IF \E i \in 1..Len(ps) : ps[i].st = "valid" THEN "inconsistent-case" ELSE "ok")
  ELSE IF \E i \in 2..Len(ps) : Canon(ps[i].ins, ps[i].out) # Canon(ps[1].ins, ps[1].out) THEN "inconsistent-case"
  ELSE
  LET ts == [i \in 1..Len(ps[1].ins) |-> [labels |-> ps[1].ins[i], shape |-> k.reqs[1].shapes[i], data |-> k.data[i]]]
      ref == IF Len(ts) > 9 THEN Eliminate("mod", ts, ps[1].out) ELSE Contract("mod", ts, ps[1].out)
      v == First([i \in 1..Len(ps) |-> JudgeMeanOne(k.reqs[i], ps[i], k.data, ref)]) IN
  IF v # "ok" THEN v
  ELSE IF Cardinality(PathsOf(k)) > 1 THEN "formats-give-different-paths" ELSE "ok"

Judge(k) ==
  CASE k.k = "accept" -> First([i \in 1..Len(k.reqs) |-> JudgeAccept(k.reqs[i])])
    [] k.k = "mean" -> JudgeMean(k)
    [] k.k = "expect" -> IF k.e = k.want THEN "ok" ELSE k.what \o "-raised-" \o (IF k.e = "" THEN "nothing" ELSE k.e)
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
