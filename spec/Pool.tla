-------------------------------- MODULE Pool --------------------------------
(* Who owns the executor of a random optimizer.  State: `own' = number of     *)
(* worker processes of pools the optimizer created that may live, `user' =    *)
(* TRUE while a pool supplied by the user is attached.  A pool that was       *)
(* created is shut down when the setting changes or the optimizer goes away;  *)
(* the user's pool is never shut down.                                        *)
EXTENDS Integers, Sequences
Off == [kind |-> "off"]
Settings == {"off", "own", "user"}
(* after setting s, pools created earlier are gone *)
OwnedAlive(s) == s = "own"
=============================================================================
