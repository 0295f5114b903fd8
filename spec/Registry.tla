------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The table of named path finders.  A name is a sequence of character      *)
(* codes; spellings that differ in case are the same name.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Lower1(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
Lower(nm) == [i \in 1..Len(nm) |-> Lower1(nm[i])]

(* table: function from lower-case names to finders; builtin names map to   *)
(* finder 0                                                                 *)
Known(tab, nm) == Lower(nm) \in DOMAIN tab
LookUp(tab, nm) == IF Known(tab, nm) THEN [ok |-> TRUE, fn |-> tab[Lower(nm)]] ELSE [ok |-> FALSE, fn |-> -1]
CanRegister(tab, nm) == ~Known(tab, nm)
Registered(tab, nm, f) == [x \in DOMAIN tab \cup {Lower(nm)} |-> IF x = Lower(nm) THEN f ELSE tab[x]]

(***************************************************************************)
(* What the documentation says each name means.                             *)
(***************************************************************************)
AutoChoice(n) == CASE n <= 4 -> "optimal" [] n <= 6 -> "branch-all" [] n <= 8 -> "branch-2" [] n <= 14 -> "branch-1" [] OTHER -> "greedy"
AutoHqChoice(n) == CASE n <= 5 -> "optimal" [] n <= 16 -> "dp" [] OTHER -> "random-greedy-128"
Algorithm(name, n) ==
  CASE name \in {"auto", "True", "None"} -> AutoChoice(n)
    [] name = "auto-hq" -> AutoHqChoice(n)
    [] name \in {"greedy", "eager", "opportunistic"} -> "greedy"
    [] name \in {"dp", "dynamic-programming"} -> "dp"
    [] OTHER -> name
=============================================================================
