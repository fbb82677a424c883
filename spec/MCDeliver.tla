------------------------------ MODULE MCDeliver ------------------------------
(* Commands in a row in a world with faults.  Laws: the design - every        *)
(* failure ends the command with a word, the configuration is made under      *)
(* another name and then given its own - is never judged at fault, whatever   *)
(* fails and wherever it is stopped, and leaves no part of a configuration;   *)
(* a careless command (that goes on after a failure, takes what it could not  *)
(* read for the end, ends without a word, makes the configuration in its      *)
(* place) is judged at fault exactly when that comes to show.                 *)
EXTENDS Deliver, Json
CONSTANTS Blocks, Faults, Runs, Careless, Cmds, Emit
VARIABLES conf,  \* what there is of the configuration: none, part, whole
          may,   \* what the judge takes it to be
          pc, left, \* what the command does next; blocks of its answer not shown yet
          want,  \* what it should show: notice and blocks
          got,   \* what was shown
          d,     \* the judge's view of that
          e,     \* how it ended
          n, log, run, care
vars == <<conf, may, pc, left, want, got, d, e, n, log, run, care>>
Notice == 0
Answer == [k \in 1..Blocks |-> k]
\* with less to go by the answer is another one
Poor == [k \in 1..Blocks |-> IF k < Blocks THEN k ELSE -1]
Start(c) == /\ pc' = "open" /\ left' = Answer /\ want' = (IF c = "none" THEN <<Notice>> ELSE << >>) \o Answer
            /\ got' = << >> /\ d' = Shown0 /\ e' = [ok |-> FALSE, told |-> FALSE, files |-> TRUE]
Init == /\ conf \in {"none", "whole"} /\ may = {conf} /\ pc = "open" /\ left = Answer /\ got = << >> /\ d = Shown0
        /\ want = (IF conf = "none" THEN <<Notice>> ELSE << >>) \o Answer
        /\ e = [ok |-> FALSE, told |-> FALSE, files |-> TRUE] /\ n = 0 /\ run = 1 /\ care = TRUE
        /\ log = <<[op |-> "cmd", conf |-> conf]>>
Size == [c \in Confs |-> IF c = "whole" THEN Blocks ELSE Blocks + 1]
NextOf(p) == CASE p = "open" -> IF conf = "none" THEN "make" ELSE "read"
               [] p = "make" -> "fill" [] p = "fill" -> "name" [] p = "name" -> "note" [] p = "note" -> "read"
               [] p = "read" -> "show" [] p = "show" -> IF Len(left) > 1 THEN "show" ELSE "end"
Kind(p) == CASE p \in {"open", "read"} -> "in" [] p \in {"make", "fill", "name"} -> "made" [] OTHER -> "out"
\* which of the calls of its kind it is
Nth(p) == CASE p \in {"note", "open", "make"} -> 0 [] p = "read" -> -1 [] p = "fill" -> 1 [] p = "name" -> -1
            [] p = "show" -> IF Len(left) = 1 THEN -1 ELSE Blocks - Len(left) + (IF want[1] = Notice THEN 1 ELSE 0)
Text(p) == IF p = "note" THEN <<Notice>> ELSE IF p = "show" THEN <<left[1]>> ELSE << >>
\* whether what was shown with this goes on with the right text
Goes(t, w) == LET g == got \o t IN Len(g) <= Len(w) /\ g = SubSeq(w, 1, Len(g))
X(p, how, t) == [k |-> p, out |-> Kind(p) = "out", m |-> Len(t), how |-> how, w |-> Goes(t, Answer), f |-> Goes(t, <<Notice>> \o Answer)]
Does(p, how, t) == d' = Call(d, X(p, how, t)) /\ got' = got \o t
\* what the call does to the configuration; made in its place there is a part of it in between
ConfOf(p, all) == CASE p = "name" /\ all -> IF conf = "none" THEN "whole" ELSE conf
                    [] p = "fill" /\ ~care -> IF all THEN "whole" ELSE "part"
                    [] OTHER -> conf
Runs1 == pc \notin {"end", "over"}
Plan(p, act) == log' = Append(log, [op |-> "run", on |-> Kind(p), nth |-> Nth(p), act |-> act])
Good == /\ Runs1
        /\ Does(pc, "", Text(pc)) /\ conf' = ConfOf(pc, TRUE) /\ pc' = NextOf(pc)
        \* a part of a configuration is taken for one: what is shown is not the answer
        /\ left' = CASE pc = "show" -> Tail(left) [] pc = "open" /\ conf = "part" -> Poor [] OTHER -> left
        /\ UNCHANGED <<may, want, e, n, log, run, care>>
Spent == n < Faults /\ n' = n + 1 /\ Len(log) = run
Bump == Runs1 /\ Spent /\ Kind(pc) # "made" /\ \E how \in {"short", "again"} :
        /\ how = "short" => pc = "show"
        /\ Does(pc, how, Text(pc)) /\ pc' = NextOf(pc) /\ conf' = conf /\ Plan(pc, how)
        /\ left' = CASE pc = "show" -> Tail(left) [] pc = "open" /\ conf = "part" -> Poor [] OTHER -> left
        /\ UNCHANGED <<may, want, e, run, care>>
Over(ok, told) == pc' = "over" /\ e' = [ok |-> ok, told |-> told, files |-> conf = "whole"]
Stopped == /\ Runs1 /\ Spent /\ \E t \in {<< >>, Text(pc)} : \E all \in BOOLEAN :
              /\ Does(pc, "die", t) /\ conf' = (IF all \/ ~care THEN ConfOf(pc, all) ELSE conf)
              /\ Plan(pc, IF all THEN "killafter" ELSE "kill") /\ t = (IF all THEN Text(pc) ELSE << >>)
           /\ Over(FALSE, FALSE) /\ UNCHANGED <<may, left, want, run, care>>
Fails == /\ Runs1 /\ Spent /\ (\E a \in (IF pc = "read" THEN {"error", "cut"} ELSE IF pc = "open" THEN {"error"} ELSE {"full"}) : Plan(pc, a))
         /\ Does(pc, "error", << >>) /\ conf' = (IF care THEN conf ELSE ConfOf(pc, FALSE))
         /\ \/ Over(FALSE, TRUE) /\ UNCHANGED <<left, care>>
            \/ Careless /\ care' = FALSE /\ (\/ Over(FALSE, FALSE) /\ left' = left
                                             \/ /\ pc' = NextOf(pc) /\ e' = e
                                                /\ left' = IF Kind(pc) = "in" THEN Poor ELSE IF pc = "show" THEN Tail(left) ELSE left)
         /\ UNCHANGED <<may, want, run>>
InPlace == Careless /\ care /\ pc = "make" /\ care' = FALSE /\ UNCHANGED <<conf, may, pc, left, want, got, d, e, n, log, run>>
Ends == pc = "end" /\ Over(TRUE, FALSE) /\ UNCHANGED <<conf, may, left, want, got, d, n, log, run, care>>
Judged == RunFaults(may, d, Size, e)
Again == /\ pc = "over" /\ run < Runs /\ Judged = {}
         /\ log' = (IF Len(log) = run THEN Append(log, [op |-> "run", on |-> "in", nth |-> 0, act |-> "none"]) ELSE log)
         /\ run' = run + 1 /\ may' = ConfAfter(conf)
         /\ Start(conf) /\ UNCHANGED <<conf, n, care>>
Next == Good \/ Bump \/ Stopped \/ Fails \/ InPlace \/ Ends \/ Again
Spec == Init /\ [][Next]_vars

LawDesign == care => conf # "part" /\ (pc = "over" => Judged = {})
\* the judge takes the configuration to be what it is, until a part of one is left
LawConf == pc = "open" /\ conf # "part" => conf \in may
Begins == Len(got) <= Len(want) /\ got = SubSeq(want, 1, Len(got))
Wrong == ~Begins \/ (e.ok /\ (got # want \/ ~e.files)) \/ (~e.ok /\ ~d.dead /\ ~(e.told /\ d.hit))
LawJudge == pc = "over" => (Wrong => Judged # {})
LawFair == pc = "over" /\ Judged # {} => Wrong
EmitPlan == Emit /\ pc = "over" /\ run = Runs /\ care /\ Len(log) > 1 =>
  \A c \in Cmds : PrintT("@@PROG " \o ToJson([ev |-> <<[op |-> "cmd", conf |-> log[1].conf, cmd |-> c]>> \o Tail(log)
                         \o <<[op |-> "run", on |-> "in", nth |-> 0, act |-> "none"]>>]))
=============================================================================
