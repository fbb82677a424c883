------------------------------- MODULE MCAlone -------------------------------
(* Any calls of a command on what a user has.  Law: it is judged at fault     *)
(* exactly if something it has no business with was, for a moment even, not   *)
(* what it was - also if it was put back.                                     *)
EXTENDS Deliver, Json
CONSTANTS Calls_, Cmds, Nths, Emit
VARIABLES conf, cmd, w, cs, ever
vars == <<conf, cmd, w, cs, ever>>
Areas == {"out", "conf", "pages", "given", "new"}
Kept(a) == [out |-> "empty", conf |-> conf, pages |-> "none", given |-> "whole", new |-> "none"][a]
Init == /\ conf \in Confs /\ cmd \in Cmds /\ cs = << >> /\ ever = {}
        /\ w = [out |-> "empty", conf |-> conf, pages |-> "none", given |-> "whole", new |-> "none"]
\* what a call makes of a file
Made(h, t) == CASE h = "create" -> (IF t = "none" THEN "else" ELSE t) [] h = "trunc" -> (IF t = "none" THEN t ELSE "else")
                [] h = "write" -> (IF t = "none" THEN t ELSE "else") [] h = "remove" -> "none" [] h = "putback" -> "whole"
\* a call that changed nothing (a file that was there and is opened with leave to make it; one that is not there
\* and is removed) is not told
Tell(h, a) == IF Made(h, w[a]) # w[a] THEN <<[how |-> h, area |-> IF a \in {"given", "new"} THEN "other" ELSE a, name |-> a]>> ELSE << >>
Do(h, a) == /\ w' = [w EXCEPT ![a] = Made(h, @)] /\ cs' = cs \o Tell(h, a)
            /\ ever' = IF w'[a] # Kept(a) THEN ever \cup {a} ELSE ever
Next == Len(cs) < Calls_ /\ (\E h \in {"create", "trunc", "write", "remove", "putback"}, a \in Areas : Do(h, a)) /\ UNCHANGED <<conf, cmd>>
Spec == Init /\ [][Next]_vars
Mine == {"out"} \cup (IF conf = "none" THEN {"conf"} ELSE {}) \cup (IF cmd = "pages" THEN {"pages"} ELSE {})
LawJudge == (ever \ Mine # {}) <=> (Touched({conf}, cmd, cs) # {})
EmitPlan == Emit /\ cs = << >> => \A n \in Nths :
  PrintT("@@PROG " \o ToJson([ev |-> <<[op |-> "cmd", conf |-> conf, cmd |-> cmd, chk |-> "alone"],
     [op |-> "run", on |-> "in", nth |-> 0, act |-> "none"], [op |-> "run", on |-> "in", nth |-> n, act |-> "missing"],
     [op |-> "run", on |-> "in", nth |-> n, act |-> "error"], [op |-> "run", on |-> "in", nth |-> 0, act |-> "none"]>>]))
=============================================================================
