-------------------------------- MODULE MCStore ------------------------------
(* Every short sequence of file operations on the state file "s" and another  *)
(* "t", carried out by a disk that writes back data and names when it likes:  *)
(* whatever a crash of that machine leaves is among what Store.tla says it    *)
(* may leave.  Then the ways a program may save, with every step failing or   *)
(* the program dying after it: which of them are safe.                        *)
EXTENDS Store, Json
CONSTANTS Depth, Had, Emit
Size == 2     \* length of the new state
Old == [old |-> TRUE, n |-> 0, len |-> 3]

Op(k) == [k |-> k, ok |-> TRUE, done |-> TRUE, fd |-> -1, p |-> "", q |-> "", n |-> 0, off |-> 0, good |-> FALSE,
          creat |-> FALSE, trunc |-> FALSE, excl |-> FALSE, app |-> FALSE, w |-> FALSE]
Open(p, tr) == [Op("open") EXCEPT !.fd = 3, !.p = p, !.q = p, !.creat = TRUE, !.trunc = tr, !.w = TRUE]
Excl(p) == [Open(p, FALSE) EXCEPT !.excl = TRUE]
WriteAt(off, n, good) == [Op("write") EXCEPT !.fd = 3, !.off = off, !.n = n, !.good = good]
Fsync == [Op("fsync") EXCEPT !.fd = 3]
Close == [Op("close") EXCEPT !.fd = 3]
Rename(p, q) == [Op("rename") EXCEPT !.p = p, !.q = q]
Unlink(p) == [Op("unlink") EXCEPT !.p = p]
OpenDir == [Op("open") EXCEPT !.fd = 4, !.p = "."]
SyncDir == [Op("fsync") EXCEPT !.fd = 4]

VARIABLES ops, d,       \* the operations so far; what Store.tla makes of them
          pos,          \* where the next write goes, -1: not open
          vn, vc, fdi,  \* the machine: names, contents of the files (by number), the open one
          dn, queue, dc \* on the disk: names, changes of names not yet there, contents
vars == <<ops, d, pos, vn, vc, fdi, dn, queue, dc>>
N0 == IF Had THEN ("s" :> 1) ELSE << >>
C0 == IF Had THEN <<Old>> ELSE << >>
Init == /\ ops = << >> /\ d = Disk0("s", "s", Had, 3) /\ pos = -1
        /\ vn = N0 /\ vc = C0 /\ fdi = 0 /\ dn = N0 /\ queue = << >> /\ dc = C0
Do(x) == ops' = Append(ops, x) /\ d' = FileOp(d, x)
Name(nm) == vn' = nm /\ queue' = Append(queue, nm)
OpenIt(p, tr) ==
  /\ pos = -1 /\ Do(Open(p, tr)) /\ pos' = 0
  /\ IF p \in DOMAIN vn
     THEN /\ fdi' = vn[p] /\ vc' = (IF tr THEN [vc EXCEPT ![vn[p]] = Empty] ELSE vc) /\ UNCHANGED <<vn, queue, dc>>
     ELSE /\ fdi' = Len(vc) + 1 /\ vc' = Append(vc, Empty) /\ dc' = Append(dc, Empty) /\ Name((p :> Len(vc) + 1) @@ vn)
  /\ dn' = dn
WriteIt(n, good) ==
  /\ pos >= 0 /\ pos + n <= Size /\ Do(WriteAt(pos, n, good)) /\ pos' = pos + n
  /\ vc' = [vc EXCEPT ![fdi] = Wrote(@, pos, n, good)]
  /\ UNCHANGED <<vn, fdi, dn, queue, dc>>
SyncIt == pos >= 0 /\ Do(Fsync) /\ dc' = [dc EXCEPT ![fdi] = vc[fdi]] /\ UNCHANGED <<pos, vn, vc, fdi, dn, queue>>
CloseIt == pos >= 0 /\ Do(Close) /\ pos' = -1 /\ fdi' = 0 /\ UNCHANGED <<vn, vc, dn, queue, dc>>
RenameIt(p, q) == /\ p \in DOMAIN vn /\ Do(Rename(p, q)) /\ Name((q :> vn[p]) @@ [x \in DOMAIN vn \ {p} |-> vn[x]])
                  /\ UNCHANGED <<pos, vc, fdi, dn, dc>>
UnlinkIt(p) == p \in DOMAIN vn /\ Do(Unlink(p)) /\ Name([x \in DOMAIN vn \ {p} |-> vn[x]]) /\ UNCHANGED <<pos, vc, fdi, dn, dc>>
DirIt == /\ ops # << >> /\ ops[Len(ops)].k # "fsync" /\ queue # << >>
         /\ ops' = ops \o <<OpenDir, SyncDir>> /\ d' = FileOp(FileOp(d, OpenDir), SyncDir)
         /\ dn' = vn /\ queue' = << >> /\ UNCHANGED <<pos, vn, vc, fdi, dc>>
\* the disk at work, unasked
FlushName == queue # << >> /\ dn' = queue[1] /\ queue' = Tail(queue) /\ UNCHANGED <<ops, d, pos, vn, vc, fdi, dc>>
FlushData == \E k \in DOMAIN vc : dc[k] # vc[k] /\ \E c \in {vc[k], Torn} : dc[k] # c /\ dc' = [dc EXCEPT ![k] = c] /\ UNCHANGED <<ops, d, pos, vn, vc, fdi, dn, queue>>
Next == \/ Len(ops) < Depth /\ (\/ \E p \in {"s", "t"} : \E tr \in BOOLEAN : OpenIt(p, tr)
                                \/ \E n \in 1..2 : \E g \in BOOLEAN : WriteIt(n, g)
                                \/ SyncIt \/ CloseIt \/ RenameIt("t", "s") \/ RenameIt("s", "t") \/ UnlinkIt("s") \/ UnlinkIt("t") \/ DirIt)
        \/ FlushName \/ FlushData
Spec == Init /\ [][Next]_vars
View == <<d, pos, vn, vc, fdi, dn, queue, dc, Len(ops)>>
\* what the machine leaves if it stops here
Left == IF "s" \in DOMAIN dn THEN dc[dn["s"]] ELSE None
LawLeaves == Left \in Leaves(d, "s", "s")
LawHolds == Holds(d, "s", "s") = (IF "s" \in DOMAIN vn THEN vc[vn["s"]] ELSE None)
LawUnderstood == d.ok

\* ways to save, as sequences of operations
Seen(o, had) == [path |-> "s", real |-> "s", was |-> had, wassize |-> 3, size |-> Size, ops |-> o, same |-> FALSE]
Whole2 == <<WriteAt(0, 1, TRUE), WriteAt(1, 1, TRUE)>>
Replace == <<Excl("t")>> \o Whole2 \o <<Fsync, Close, Rename("t", "s")>>
ReplaceDir == Replace \o <<OpenDir, SyncDir>>
NoSync == <<Excl("t")>> \o Whole2 \o <<Close, Rename("t", "s")>>
LateSync == <<Excl("t")>> \o Whole2 \o <<Rename("t", "s"), Fsync, Close>>
InPlace == <<Open("s", TRUE)>> \o Whole2 \o <<Fsync, Close>>
Over == <<Open("s", FALSE)>> \o Whole2 \o <<Fsync, Close>>
Aside == <<Excl("t")>> \o Whole2 \o <<Fsync, Close, Unlink("s"), Rename("t", "s")>>
Half == <<Excl("t"), WriteAt(0, 1, TRUE), Fsync, Close, Rename("t", "s")>>
Copy == <<Rename("s", "t"), Excl("s")>> \o Whole2 \o <<Fsync, Close>>
Safe(o, had) == CrashFaults(Seen(o, had)) = {}
ASSUME \A had \in BOOLEAN : Safe(Replace, had) /\ Safe(ReplaceDir, had)
\* ... also when it stops anywhere, or one operation fails and what follows is only tidying up
Failing(o, k) == SubSeq(o, 1, k - 1) \o <<[o[k] EXCEPT !.ok = FALSE], Close, Unlink("t")>>
ASSUME \A had \in BOOLEAN : \A o \in {Replace, ReplaceDir} : \A k \in 1..Len(o) : Safe(SubSeq(o, 1, k), had) /\ (k > Len(Replace) \/ Safe(Failing(o, k), had))
\* ... but not when a failure goes unnoticed, and none of the other ways
Ignoring(o, k) == [o EXCEPT ![k].ok = FALSE]
ASSUME \A had \in BOOLEAN : \A k \in 2..4 : ~Safe(Ignoring(Replace, k), had)
ASSUME \A had \in BOOLEAN : \A o \in {NoSync, LateSync, InPlace, Half} : ~Safe(o, had)
ASSUME \A o \in {Aside, Over, Copy} : ~Safe(o, TRUE)
ASSUME Explained(Seen(Replace, TRUE)) /\ ~Explained(Seen(Half, TRUE)) /\ ~Explained([Seen(Replace, TRUE) EXCEPT !.same = TRUE, !.size = 3])

\* every file operation of a real save failing in every way, in every setting
Base(kind, v) == [op |-> "bank", kind |-> kind, payees |-> v, req |-> v, pad |-> 3000, insts |-> 1, expires |-> 86400, old |-> "all", incl |-> TRUE, desc |-> FALSE, accounts |-> << >>]
Acts == {"kill", "killafter", "short", "full", "5", "13", "28", "4", "122", "30", "24"}
EmitSaves == (Emit /\ ops = << >> /\ dn = N0 /\ dc = C0) =>
  \A kind \in {"starling", "monzo", "nordigen"} : \A form \in {"json", "gz"} : \A at \in {"plain", "link", "deep"} : \A act \in Acts : \A half \in 0..1 :
    PrintT("@@PROG " \o ToJson([ev |->
      <<[op |-> "file", kind |-> kind, form |-> form, at |-> at, tok |-> CASE kind = "monzo" -> "good" [] kind = "nordigen" -> "inst" [] OTHER -> "none"],
        Base(kind, 1)>> \o (IF at = "deep" THEN << >> ELSE <<[op |-> "sync", all |-> FALSE]>>) \o
      FlattenSeq([m \in 1..9 |-> <<(IF kind = "monzo" THEN [Base(kind, m + 1) EXCEPT !.accounts = <<[id |-> "a", listed |-> TRUE, v |-> m, items |-> << >>]>>] ELSE Base(kind, m + 1)),
                                   [op |-> "save", n |-> half * 9 + m, act |-> act, two |-> FALSE]>>])
      \o <<[op |-> "sync", all |-> FALSE]>>]))
=============================================================================
