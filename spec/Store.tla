-------------------------------- MODULE Store --------------------------------
(* What a crash may leave of a file: a file system that keeps data it was not *)
(* told to sync for as long as it likes, in any part, and directory changes   *)
(* in their order.                                                            *)
(*                                                                            *)
(* A disk is [nm |-> names: path -> inode, hist |-> the names that may be on  *)
(* disk, ino |-> sequence of inodes [cur |-> content, may |-> the contents    *)
(* that may be on disk], fds |-> descriptor -> inode, ok |-> whether every    *)
(* operation was understood].  A content is [old |-> it is the previous one,  *)
(* n |-> how many bytes from the start are those of the new one, len |-> its  *)
(* length].  Inode -1 is the symbolic link given as the state file.           *)
EXTENDS Prim, TLC, FiniteSets, SequencesExt
Empty == [old |-> FALSE, n |-> 0, len |-> 0]
Torn == [old |-> FALSE, n |-> 0, len |-> -1]
Inode(c) == [cur |-> c, may |-> {c}]
Put(d, k, c) == [d EXCEPT !.ino[k] = [cur |-> c, may |-> @.may \cup {c, Torn}]]
Synced(d, k) == [d EXCEPT !.ino[k].may = {d.ino[k].cur}]
Named(d, nm) == [d EXCEPT !.nm = nm, !.hist = @ \cup {nm}]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
At(d, p) == IF p \in DOMAIN d.nm THEN d.nm[p] ELSE 0
\* an inode the model knows nothing about so far
New(d, c) == [d EXCEPT !.ino = Append(@, Inode(c))]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Wrote(c, off, m, good) ==
  IF m = 0 THEN c
  ELSE [old |-> FALSE, len |-> MaxOf(c.len, off + m),
        n |-> IF good /\ off <= c.n THEN MaxOf(c.n, off + m) ELSE IF good THEN c.n ELSE MinOf(c.n, off)]
Cut(c, m) == IF c.len = m THEN c ELSE [old |-> FALSE, n |-> MinOf(c.n, m), len |-> m]
FileOp(d, x) ==
  IF ~x.ok THEN (IF x.k = "odd" THEN [d EXCEPT !.ok = FALSE] ELSE d)
  ELSE CASE x.k = "open" ->
         LET k == At(d, x.p)
             d2 == IF k > 0 THEN d ELSE LET e == New(d, Empty) IN IF x.creat /\ k = 0 THEN Named(e, (x.p :> Len(e.ino)) @@ e.nm) ELSE e
             k2 == IF k > 0 THEN k ELSE Len(d2.ino)
             d3 == IF x.trunc /\ d2.ino[k2].cur.len # 0 THEN Put(d2, k2, Empty) ELSE d2
         \* a file that is only read may be a directory, to be synced
         IN [d3 EXCEPT !.fds = (x.fd :> (IF k <= 0 /\ ~x.creat /\ ~x.w THEN 0 ELSE k2)) @@ @]
    [] x.k = "close" -> [d EXCEPT !.fds = Without(@, x.fd)]
    [] x.k \in {"write", "ftruncate"} ->
         LET k == IF x.fd \in DOMAIN d.fds THEN d.fds[x.fd] ELSE 0 IN
         IF k = 0 THEN [d EXCEPT !.ok = FALSE]
         ELSE IF x.k = "write" THEN Put(d, k, Wrote(d.ino[k].cur, x.off, x.n, x.good)) ELSE Put(d, k, Cut(d.ino[k].cur, x.n))
    [] x.k = "truncate" -> IF At(d, x.p) > 0 THEN Put(d, At(d, x.p), Cut(d.ino[At(d, x.p)].cur, x.n)) ELSE [d EXCEPT !.ok = FALSE]
    [] x.k = "fsync" ->
         LET k == IF x.fd \in DOMAIN d.fds THEN d.fds[x.fd] ELSE 0 IN
         IF k = 0 THEN [d EXCEPT !.hist = {d.nm}] ELSE Synced(d, k)
    [] x.k = "sync" -> [d EXCEPT !.hist = {d.nm}, !.ino = [k \in DOMAIN d.ino |-> Inode(d.ino[k].cur)]]
    [] x.k = "rename" ->
         LET k == At(d, x.p)
             d2 == IF k # 0 THEN d ELSE New(d, Torn)
             k2 == IF k # 0 THEN k ELSE Len(d2.ino)
         IN Named(d2, (x.q :> k2) @@ Without(d2.nm, x.p))
    [] x.k = "link" -> IF At(d, x.p) > 0 THEN Named(d, (x.q :> At(d, x.p)) @@ d.nm) ELSE [d EXCEPT !.ok = FALSE]
    [] x.k = "unlink" -> IF At(d, x.p) # 0 THEN Named(d, Without(d.nm, x.p)) ELSE d
    [] x.k \in {"symlink", "odd"} -> [d EXCEPT !.ok = FALSE]
    [] OTHER -> d \* read, lseek, mkdir, rmdir, chmod
\* the disk before: the file, by its name or through a link, or none
Disk0(path, real, was, len) ==
  LET nm == (IF path # real THEN (path :> -1) ELSE << >>) @@ (IF was THEN (real :> 1) ELSE << >>) IN
  [nm |-> nm, hist |-> {nm}, ino |-> IF was THEN <<Inode([old |-> TRUE, n |-> 0, len |-> len])>> ELSE << >>, fds |-> << >>, ok |-> TRUE]
\* the inode found under the name given, in names nm
Found(nm, path, real) ==
  LET k == IF path \in DOMAIN nm THEN nm[path] ELSE 0 IN
  IF k # -1 THEN k ELSE IF real \in DOMAIN nm THEN nm[real] ELSE 0
\* what a crash now may leave: a set of contents, or none (len -2)
None == [old |-> FALSE, n |-> 0, len |-> -2]
Leaves(d, path, real) == UNION {LET k == Found(nm, path, real) IN IF k = 0 THEN {None} ELSE d.ino[k].may : nm \in d.hist}
Holds(d, path, real) == LET k == Found(d.nm, path, real) IN IF k = 0 THEN None ELSE d.ino[k].cur
Whole(c, was, size) == (was /\ c.old) \/ (~was /\ c = None) \/ (c.n >= size /\ c.len = size)

RECURSIVE RunOps(_, _, _)
RunOps(d, ops, k) == IF k > Len(ops) THEN <<d>> ELSE <<d>> \o RunOps(FileOp(d, ops[k]), ops, k + 1)
CrashFaults(o) ==
  LET ds == RunOps(Disk0(o.path, o.real, o.was, o.wassize), o.ops, 1)
      last == ds[Len(ds)]
      bad == {k \in 1..Len(ds) : \E c \in Leaves(ds[k], o.path, o.real) : ~Whole(c, o.was, o.size)}
  IN IF ~last.ok \/ bad = {} THEN {}
     ELSE LET k == CHOOSE n \in bad : \A m \in bad : n <= m IN
          {"a crash after " \o (IF k = 1 THEN "nothing" ELSE o.ops[k - 1].k) \o " (" \o SOfInt(k - 1) \o ") leaves neither the old nor the new state"}
\* whether the model describes what happened: its file is that on the disk
Explained(o) ==
  LET ds == RunOps(Disk0(o.path, o.real, o.was, o.wassize), o.ops, 1)
      c == Holds(ds[Len(ds)], o.path, o.real)
  IN ds[Len(ds)].ok /\ (IF o.same THEN (o.was /\ c.old) \/ c = None \/ (c.n >= o.size /\ c.len = o.size) ELSE c.n >= o.size /\ c.len = o.size)
=============================================================================
