------------------------------- MODULE MCConfig -------------------------------
(* Configuration files in every place, environments, first runs and command     *)
(* lines.  Laws (C33): the first file of the search order alone counts, a        *)
(* setting comes from the command line, else from that file, else is the         *)
(* default; a setting or value that does not exist is refused; what a first run   *)
(* writes is accepted by the next one, which behaves the same; and a run only     *)
(* ever adds the file that a first run writes.  With Emit the histories are       *)
(* replayed on the real program.                                                 *)
EXTENDS Forms, Json
CONSTANTS Focus, Files0, Emit

VARIABLES disk, env, runs, puts
vars == <<disk, env, runs, puts>>
Places == <<"conf", "xdg.toml", "xdg.cfg", "user.toml", "user.cfg", "home.toml", "home.cfg", "dot.toml", "dot.cfg", "cwd.toml", "cwd.cfg">>
\* a file at a place names the ledger of that place
LedgerAt(p) == "l-" \o p
Plain1(p) == [NoFile EXCEPT !.set = ("ledger" :> LedgerAt(p))]
Empty == [n \in {} |-> ""]

\* ---- settings: two values each and one that is none
Good(n) == CASE n \in Bools -> {"true", "false"}
             [] n = "register.count" -> {"1", "-1"}
             [] n = "report.combineby" -> {"Yearly", "none"}
             [] n = "report.type" -> {"Text", "json"}
             [] n = "register.type" -> {"text", "CSV"}
             [] n = "export.type" -> {"CSV", "ledger"}
             [] n = "ledger" -> {"main.ledger", "other.ledger"}
             [] n \in {"register.begin", "register.asof"} -> {"2020-01-15", "2020-02-15"}
             [] n = "ccy" -> {"x", "y"}
             [] n = "lang" -> {"de", "fr"}
             [] n = "divider" -> {":", "_"}
             [] OTHER -> {"A", "^B"}
Wrong(n) == IF n \in Bools \cup Ints \cup DOMAIN Enums THEN {"wrong"} ELSE {}
AllNames == (Known \cup {"nonsense", "report.nonsense"}) \ {"verbose", "report.htmlcss", "register.zero"}
ValuesOf(n) == IF n \in Known THEN Good(n) \cup Wrong(n) ELSE {"true"}
CmdFor(n) == IF SectionOf(n) \in {"report", "register", "export", "accts"} THEN SectionOf(n)
             ELSE IF n = "nonsense" THEN "ccy" ELSE IF n \in {"ccy", "divider"} THEN "report" ELSE "register"
FirstOf(cmd) == IF cmd = "report" THEN ("report.type" :> "Text") @@ ("report.sum" :> "true") @@ ("report.combineby" :> "monthly") @@ ("ccy" :> "x") ELSE Empty

Envs == {[conf |-> c, home |-> h, xdg |-> x] : c, h, x \in BOOLEAN}
SubsetsUpTo(S, n) == {q \in SUBSET S : Cardinality(q) <= n}
InitPlaces == /\ env \in Envs
              /\ \E q \in SubsetsUpTo({Places[n] : n \in 1..Len(Places)}, Files0) :
                    /\ disk = [p \in q |-> Plain1(p)]
                    /\ puts = LET s == SetToSeq(q) IN [n \in 1..Len(s) |-> [at |-> s[n], f |-> Plain1(s[n])]]
InitValues == /\ env = [conf |-> TRUE, home |-> FALSE, xdg |-> FALSE]
              /\ \E n \in AllNames : \E v \in (IF n \in CliOnly THEN {} ELSE ValuesOf(n)) \cup {"-"} :
                   LET f == [NoFile EXCEPT !.set = (IF v = "-" THEN Empty ELSE n :> v) @@ FirstOf(CmdFor(n))] IN
                   disk = ("conf" :> f) /\ puts = <<[at |-> "conf", f |-> f, n |-> n]>>
Init == runs = << >> /\ IF Focus = "places" THEN InitPlaces ELSE InitValues
Run(cmd, cli) == /\ runs' = Append(runs, [cmd |-> cmd, cli |-> cli, disk |-> disk])
                 /\ disk' = DiskAfter(disk, env)
                 /\ UNCHANGED <<env, puts>>
Next == IF Focus = "places"
        THEN Len(runs) < 3 /\ LET cmd == <<"accts", "register", "report">>[Len(runs) + 1] IN
                Run(cmd, IF Len(runs) = 2 THEN ("ledger" :> "main.ledger") @@ ("ccy" :> "x") ELSE Empty)
        ELSE runs = << >> /\ LET n == puts[1].n IN \E v \in ValuesOf(n) \cup {"-"} : Run(CmdFor(n), IF v = "-" THEN Empty ELSE n :> v)
Spec == Init /\ [][Next]_vars

Final1 == runs[Len(runs)]
Was == Settings(Final1.disk, env, "en", Final1.cmd, Final1.cli)
\* a second run in the same state, after the first
Again == Settings(disk, env, "en", Final1.cmd, Final1.cli)
Ran == runs # << >>
LawFirst == Ran => Again = Was
LawOneFile == Ran /\ Was.k = "ok" /\ Focus = "places" /\ "ledger" \notin DOMAIN Final1.cli =>
   LET o == SearchOrder(env) IN
   \/ \E k \in 1..Len(o) : /\ o[k] \in DOMAIN Final1.disk
                          /\ Was.s["ledger"] = (IF Final1.disk[o[k]] = DefaultFile THEN "main.ledger" ELSE LedgerAt(o[k]))
                          /\ \A j \in 1..(k - 1) : o[j] \notin DOMAIN Final1.disk
   \/ (\A k \in 1..Len(o) : o[k] \notin DOMAIN Final1.disk) /\ Was.s["ledger"] = "main.ledger"
LawOthers == Ran /\ Focus = "places" =>       \* what lies in other places is of no consequence
   Settings([p \in DOMAIN Final1.disk \cap {FoundAt(Final1.disk, env)} |-> Final1.disk[p]], env, "en", Final1.cmd, Final1.cli) = Was
LawPrecedence == Ran /\ Was.k = "ok" =>
   /\ \A n \in DOMAIN Final1.cli : Was.s[n] = Final1.cli[n]
   /\ \A n \in Known \ DOMAIN Final1.cli : LET f == FileUsed(Final1.disk, env).set IN
        Was.s[n] = IF n \in DOMAIN f THEN f[n] ELSE Defaults("en")[n]
Meaning(set) == \A n \in DOMAIN set : n \in Known /\ ValueOk(n, set[n])
LawRefuse == Ran => LET f == FileUsed(Final1.disk, env).set IN
   (Was.k = "ok" => Meaning([n \in DOMAIN Final1.cli |-> Final1.cli[n]]) /\ Meaning(f)) /\ (Was.k = "bad" => ~Meaning(Final1.cli) \/ ~Meaning(f))
LawAdds == [][\A p \in DOMAIN disk : p \in DOMAIN disk' /\ disk'[p] = disk[p]]_vars
LawWritten == Ran => FirstRun(disk, env) = FALSE

Ledger(a) == "2020/01/10 p\n " \o a \o "  x1\n B\n2020/02/10 q\n " \o a \o ":Sub  x-20.5\n A:Sub\n2020/03/10 r\n " \o a \o " y5\n B\n " \o a \o " x-0.25 @ y5\n B x0.25\n"
TheFiles == [k \in 1..(Len(Places) + 2) |-> IF k <= Len(Places) THEN [n |-> LedgerAt(Places[k]), t |-> Ledger("At" \o SOfInt(k))]
               ELSE IF k = Len(Places) + 1 THEN [n |-> "main.ledger", t |-> Ledger("Main") \o "P 2020/01/01 00:00:00 y x3\n"] ELSE [n |-> "other.ledger", t |-> Ledger("Other") \o "P 2020/01/01 00:00:00 y x2\n"]]
AcctNames == {"A", "B", "x", "y", "Main", "Other"} \cup {"At" \o SOfInt(k) : k \in 1..Len(Places)}
RunEv(x) == (IF x.cmd \in {"register", "accts"} THEN [arg |-> "^.*$"] ELSE [y \in {} |-> ""])
            @@ [op |-> "run", cmd |-> x.cmd, ops |-> << >>, cli |-> x.cli, env |-> env, lang |-> "en", chk |-> << >>]
Finished == Ran /\ (Focus = "places" => Len(runs) = 3)
EmitRun == Emit /\ Finished => PrintT("@@PROG " \o ToJson([ev |->
   <<[op |-> "load", files |-> TheFiles, mains |-> [k \in 1..Len(TheFiles) |-> TheFiles[k].n], names |-> SetToSeq(AcctNames \cup {y \o ":Sub" : y \in AcctNames})]>>
   \o [k \in 1..Len(puts) |-> [op |-> "cfg", at |-> puts[k].at, set |-> puts[k].f.set, macros |-> NoMacros]]
   \o [k \in 1..Len(runs) |-> RunEv(runs[k])]
   \o (IF Focus = "places" THEN << >> ELSE <<RunEv(Final1)>>)]))
===============================================================================
