---------------------------- MODULE MC_Registry ----------------------------
(* All histories of registrations, look-ups and uses up to MaxLen.          *)
EXTENDS Registry, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES tab, hist
vars == <<tab, hist>>
B == <<103, 114, 101>>              \* "gre" stands for a builtin
Spellings == { <<102, 111>>, <<70, 111>>, <<102, 79>>, <<98>>, B, <<71, 114, 101>> }   \* fo Fo fO b gre Gre
Init == tab = [x \in {B} |-> 0] /\ hist = <<>>
Ev(op, nm, f, ok, r) == [op |-> op, name |-> nm, fn |-> f, ok |-> ok, res |-> r]
Reg(nm, f) == /\ tab' = IF CanRegister(tab, nm) THEN Registered(tab, nm, f) ELSE tab
              /\ hist' = Append(hist, Ev("reg", nm, f, CanRegister(tab, nm), -1))
Get(nm) == /\ UNCHANGED tab /\ hist' = Append(hist, Ev("get", nm, 0, LookUp(tab, nm).ok, LookUp(tab, nm).fn))
Use(nm) == /\ UNCHANGED tab /\ hist' = Append(hist, Ev("use", nm, 0, LookUp(tab, nm).ok, LookUp(tab, nm).fn))
Next == Len(hist) < MaxLen /\ \E nm \in Spellings : \/ Reg(nm, Len(hist) + 1) \/ Get(nm) \/ Use(nm)
Spec == Init /\ [][Next]_vars
BuiltinsStay == tab[B] = 0
NoCaseClash == \A x \in DOMAIN tab : x = Lower(x)
(* the first successful registration of a name decides for good *)
FirstWins == \A i \in 1..Len(hist) : (hist[i].op # "reg" /\ hist[i].ok /\ hist[i].res > 0) =>
                LET J == { j \in 1..(i - 1) : hist[j].op = "reg" /\ Lower(hist[j].name) = Lower(hist[i].name) }
                IN J # {} /\ hist[i].res = CHOOSE f \in { hist[j].fn : j \in J } : \A g \in { hist[j].fn : j \in J } : f <= g
EmitAll == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
