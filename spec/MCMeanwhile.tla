----------------------------- MODULE MCMeanwhile -----------------------------
(* Two commands at the same time, in every order of their calls, in a place   *)
(* where there may be no configuration yet.  Laws: if the configuration is    *)
(* made under a name of the command's own and then given its name, each shows *)
(* what it would show alone and leaves a whole configuration; a common name,  *)
(* or making it in its place, is judged at fault exactly when that comes to   *)
(* show.                                                                      *)
EXTENDS Deliver, Json
CONSTANTS Blocks, Way, \* "own", "common", "place"
          Cmds, Emit
VARIABLES conf, tmp, \* what there is of the configuration, and of that under the other name(s): none, part, whole
          p,         \* the two commands: [pc, left, got, saw |-> the states of the configuration while it ran, poor]
          d, e,      \* the judge's view of each; how it ended
          conf0, log
vars == <<conf, tmp, p, d, e, conf0, log>>
Notice == 0
Answer == [k \in 1..Blocks |-> k]
Poor == [k \in 1..Blocks |-> IF k < Blocks THEN k ELSE -1]
Who == {1, 2}
Own(w) == IF Way = "own" THEN w ELSE 1
Init == /\ conf \in {"none", "whole"} /\ conf0 = conf /\ tmp = [w \in Who |-> "none"]
        /\ p = [w \in Who |-> [pc |-> "open", left |-> Answer, got |-> << >>, want |-> Answer, saw |-> {conf}]]
        /\ d = [w \in Who |-> Shown0] /\ e = [w \in Who |-> [ok |-> FALSE, told |-> FALSE, files |-> FALSE]] /\ log = << >>
Goes(g, w) == Len(g) <= Len(w) /\ g = SubSeq(w, 1, Len(g))
Size == [c \in Confs |-> IF c = "whole" THEN Blocks ELSE Blocks + 1]
Over(w) == p[w].pc = "over"
\* all that run notice the configuration change
Seen(q) == [w \in Who |-> IF q[w].pc = "over" THEN q[w] ELSE [q[w] EXCEPT !.saw = @ \cup {conf'}]]
Does(w, t, pc, left, want) ==
  /\ d' = [d EXCEPT ![w] = Call(@, [k |-> p[w].pc, out |-> t # << >>, m |-> Len(t), how |-> "",
                                     w |-> Goes(p[w].got \o t, Answer), f |-> Goes(p[w].got \o t, <<Notice>> \o Answer)])]
  /\ p' = Seen([p EXCEPT ![w] = [@ EXCEPT !.pc = pc, !.left = left, !.got = @ \o t, !.want = want]])
Step(w) ==
  LET s == p[w]
      same == conf' = conf /\ tmp' = tmp
      on(t, pc) == Does(w, t, pc, s.left, s.want) IN
  \/ s.pc = "open" /\ same /\ e' = e
     /\ Does(w, << >>, IF conf = "none" THEN "make" ELSE "read", IF conf = "part" THEN Poor ELSE s.left, IF conf = "none" THEN <<Notice>> \o Answer ELSE Answer)
  \/ s.pc = "make" /\ e' = e
     /\ (IF Way = "place" THEN conf' = "part" /\ tmp' = tmp ELSE conf' = conf /\ tmp' = [tmp EXCEPT ![Own(w)] = "part"])
     /\ on(<< >>, "fill")
  \/ s.pc = "fill" /\ e' = e
     /\ (IF Way = "place" THEN conf' = "whole" /\ tmp' = tmp ELSE conf' = conf /\ tmp' = [tmp EXCEPT ![Own(w)] = "whole"])
     /\ on(<< >>, IF Way = "place" THEN "note" ELSE "name")
  \/ s.pc = "name" /\ tmp[Own(w)] # "none" /\ e' = e
     /\ conf' = tmp[Own(w)] /\ tmp' = [tmp EXCEPT ![Own(w)] = "none"] /\ on(<< >>, "note")
  \* another has given it its name
  \/ s.pc = "name" /\ tmp[Own(w)] = "none" /\ same /\ on(<< >>, "over")
     /\ e' = [e EXCEPT ![w] = [ok |-> FALSE, told |-> TRUE, files |-> conf = "whole"]]
  \/ s.pc = "note" /\ same /\ e' = e /\ on(<<Notice>>, "read")
  \/ s.pc = "read" /\ same /\ e' = e /\ on(<< >>, "show")
  \/ s.pc = "show" /\ same /\ e' = e /\ Does(w, <<s.left[1]>>, IF Len(s.left) = 1 THEN "end" ELSE "show", Tail(s.left), s.want)
  \/ s.pc = "end" /\ same /\ on(<< >>, "over") /\ e' = [e EXCEPT ![w] = [ok |-> TRUE, told |-> FALSE, files |-> conf = "whole"]]
Next == \E w \in Who : Step(w) /\ conf0' = conf0 /\ log' = Append(log, <<w, p[w].pc, Len(p[w].left)>>)
Spec == Init /\ [][Next]_vars
Quiet == <<conf, tmp, p, d, e, conf0>>

May(w) == UNION {ConfAfter(c) : c \in p[w].saw}
Judged(w) == RunFaults(May(w), d[w], Size, e[w])
Wrong(w) == p[w].got # p[w].want \/ ~e[w].ok \/ ~e[w].files
LawOwn == Way = "own" => conf # "part" /\ \A w \in Who : Over(w) => ~Wrong(w)
LawJudge == \A w \in Who : Over(w) => (Wrong(w) <=> Judged(w) # {})
\* does the trouble ever come to show?  (to be violated for the other ways)
LawNever == \A w \in Who : Over(w) => ~Wrong(w)
\* orders in which the second runs while the first waits: before which call of the first
Nested == /\ \A w \in Who : Over(w)
          /\ LET n == Cardinality({k \in 1..Len(log) : log[k][1] = 2})
                 f == CHOOSE k \in 1..Len(log) : log[k][1] = 2 /\ \A j \in 1..(k - 1) : log[j][1] = 1
             IN \A k \in f..(f + n - 1) : log[k][1] = 2
At == LET f == CHOOSE k \in 1..Len(log) : log[k][1] = 2 /\ \A j \in 1..(k - 1) : log[j][1] = 1
          n == Cardinality({k \in 1..Len(log) : log[k][1] = 2}) IN log[f + n]
Kind(c) == CASE c \in {"open", "read"} -> "in" [] c \in {"make", "fill", "name"} -> "made" [] OTHER -> "out"
Nth(c, l) == CASE c \in {"note", "open", "make"} -> 0 [] c \in {"read", "name"} -> -1 [] c = "fill" -> 1
               [] OTHER -> IF l = 1 THEN -1 ELSE Blocks - l + 1
EmitPlan == Emit /\ (\A w \in Who : Over(w)) /\ Nested /\ log[Len(log)][1] = 1 /\ At[2] # "end" =>
  \A c \in Cmds : PrintT("@@PROG " \o ToJson([ev |-> <<[op |-> "cmd", conf |-> conf0, cmd |-> c],
     [op |-> "run", on |-> Kind(At[2]), nth |-> Nth(At[2], At[3]), act |-> "meanwhile"], [op |-> "run", on |-> "in", nth |-> 0, act |-> "none"]>>]))
=============================================================================
