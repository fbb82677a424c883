------------------------------- MODULE Deliver -------------------------------
(* A command reads what it is asked about and shows its answer, in a world    *)
(* where any call on a file may fail, be cut short, or be its last: what it   *)
(* may end with.                                                              *)
(*                                                                            *)
(* The configuration file is "whole", or is not there ("none": the command    *)
(* then makes one and says so before its answer).  What a command has to show *)
(* is therefore one of two texts; the judge follows what it has shown so far  *)
(* as [len |-> how much of it, fit |-> the states of the configuration it is  *)
(* the beginning of the right text for, hit |-> whether a call it depends on  *)
(* failed, dead |-> whether it was stopped].                                  *)
EXTENDS Prim, TLC, FiniteSets, SequencesExt
Confs == {"none", "whole"}
Shown0 == [len |-> 0, fit |-> Confs, hit |-> FALSE, dead |-> FALSE]
\* a call: k what it does, out whether to the output, m how much was taken, w / f
\* whether that goes on with the text for a whole configuration / with a first
\* run's, on whether it is the one that was to fail, how it failed
Transparent(x) == x.how \in {"short", "cut", "again"}
Call(d, x) ==
  LET e == IF x.how = "die" THEN [d EXCEPT !.dead = TRUE]
           ELSE IF x.how # "" /\ ~Transparent(x) THEN [d EXCEPT !.hit = TRUE] ELSE d IN
  IF x.out /\ x.m > 0
  THEN [e EXCEPT !.len = @ + x.m, !.fit = {c \in @ : IF c = "whole" THEN x.w ELSE x.f}]
  ELSE e
RECURSIVE Calls(_, _, _)
Calls(d, xs, k) == IF k > Len(xs) THEN d ELSE Calls(Call(d, xs[k]), xs, k + 1)

\* conf: the states the configuration may be in at the start; size[c]: how much there is to show;
\* e: how the run ended, [ok, told, files |-> whether files it makes are there as they should be]
RunFaults(conf, d, size, e) ==
  LET fit == conf \cap d.fit IN
  (IF fit = {} \/ (\A c \in fit : d.len > size[c]) THEN {"shown is not a beginning of the answer"} ELSE {})
  \cup (IF e.ok /\ fit # {} /\ (\A c \in fit : d.len # size[c]) THEN {"success, but only a part was shown"} ELSE {})
  \cup (IF e.ok /\ ~e.files THEN {"success, but not all was written"} ELSE {})
  \cup (IF ~e.ok /\ ~d.hit /\ ~d.dead THEN {"failed without cause"} ELSE {})
  \cup (IF ~e.ok /\ ~d.dead /\ ~e.told THEN {"failed without a word"} ELSE {})
\* what is seen of the configuration after a run: none, the whole, or something else
ConfAfter(seen) == IF seen \in Confs THEN {seen} ELSE Confs

\* What a run may change besides what it shows: where there is (or may be) no configuration it
\* makes one, and the manual is made where it was asked to be.  Everything else the user has -
\* ledgers, prices, data of a bank, scripts, a whole configuration - stays what it is: it is not
\* written to, made, renamed or removed, not even for a moment.  c: [how, area, name]
MayChange(conf, cmd) == {"out"} \cup (IF "none" \in conf THEN {"conf"} ELSE {}) \cup (IF cmd = "pages" THEN {"pages"} ELSE {})
Touched(conf, cmd, cs) == {c.how \o ": " \o c.name : c \in {x \in ToSet(cs) : x.area \notin MayChange(conf, cmd)}}
=============================================================================
