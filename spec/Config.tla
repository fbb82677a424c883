-------------------------------- MODULE Config --------------------------------
(* Settings: where they come from and which are allowed.                       *)
(*                                                                             *)
(* A setting has a name (those of one command are prefixed with its name) and  *)
(* a value, written as a text.  The configuration files on disk are a function *)
(* from places to [set, macros, bad]; a run uses the first place of the search *)
(* order that has a file, and writes the default file when none has.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Prim, Calendar

\* kinds of settings
Texts == {"ledger", "ccy", "divider", "lang", "report.credit", "report.hidden", "report.htmlcss", "register.begin", "register.asof"}
Bools == {"verbose", "colour", "all", "report.sum", "report.convert", "report.jsonpretty", "register.combined", "register.asc", "register.zero",
          "register.split", "register.convert", "export.jsonpretty", "accts.json"}
Ints  == {"register.count"}
Enums == ("report.combineby" :> {"yearly", "quarterly", "monthly", "today", "none", "skip"}) @@
         ("report.type" :> {"text", "ledger", "json", "html", "beancount"}) @@
         ("register.type" :> {"text", "json", "csv"}) @@
         ("export.type" :> {"ledger", "json", "beancount", "csv"})
Known == Texts \cup Bools \cup Ints \cup DOMAIN Enums
CliOnly == {"accts.json"}
SectionOf(n) == LET ps == SSplit(n, ".") IN IF Len(ps) = 2 THEN ps[1] ELSE ""

IsInt(t) == LET cs == SCodes(t)
                ds == IF cs # << >> /\ cs[1] = 45 THEN SubSeq(cs, 2, Len(cs)) ELSE cs
            IN ds # << >> /\ AllDig(ds) /\ Len(ds) <= 9
IntOf(t) == LET cs == SCodes(t) IN IF cs[1] = 45 THEN -Num(SubSeq(cs, 2, Len(cs))) ELSE Num(cs)
\* is a value one that a setting may have, as such
ValueOk(n, t) ==
  /\ n \in Known
  /\ n \in Bools => t \in {"true", "false"}
  /\ n \in Ints => IsInt(t)
  /\ n \in DOMAIN Enums => SLower(t) \in Enums[n]

Defaults(lang) ==
  [n \in Texts |-> CASE n = "ledger" -> "main.ledger" [] n = "divider" -> ":" [] n = "lang" -> lang [] OTHER -> ""]
  @@ [n \in Bools |-> IF n = "colour" THEN "true" ELSE "false"]
  @@ ("register.count" :> "0")
  @@ ("report.combineby" :> "none") @@ ("report.type" :> "ledger") @@ ("register.type" :> "text") @@ ("export.type" :> "ledger")

NoMacros == [m \in {} |-> << >>]
NoFile == [set |-> [n \in {} |-> ""], macros |-> NoMacros, bad |-> FALSE]
\* what a first run writes
DefaultFile == [NoFile EXCEPT
  !.set = ("report.combineby" :> "today") @@ ("report.type" :> "Text") @@ ("report.sum" :> "true") @@ ("report.convert" :> "true")
          @@ ("report.credit" :> "^(Income|Trading|Liability|Equity)(:.*)?$") @@ ("register.count" :> "-100")
          @@ ("register.type" :> "Text") @@ ("register.asc" :> "true"),
  !.macros = ("macroA" :> <<"book operation A", "book operation B">>)]

\* the search order; env = [conf, home, xdg]: is there an explicit file, a home directory, a configuration directory
SearchOrder(env) ==
  IF env.conf THEN <<"conf">>
  ELSE (IF env.xdg THEN <<"xdg.toml", "xdg.cfg">> ELSE IF env.home THEN <<"user.toml", "user.cfg">> ELSE << >>)
       \o (IF env.home THEN <<"home.toml", "home.cfg", "dot.toml", "dot.cfg">> ELSE << >>)
       \o <<"cwd.toml", "cwd.cfg">>
Writes(env) == env.conf \/ env.home \/ env.xdg
FoundAt(disk, env) == LET o == SearchOrder(env) IN
  IF \E n \in 1..Len(o) : o[n] \in DOMAIN disk THEN o[CHOOSE n \in 1..Len(o) : o[n] \in DOMAIN disk /\ \A m \in 1..(n - 1) : o[m] \notin DOMAIN disk] ELSE ""
FirstRun(disk, env) == FoundAt(disk, env) = "" /\ Writes(env)
\* the files on disk after a run
DiskAfter(disk, env) == IF FirstRun(disk, env) THEN disk @@ (SearchOrder(env)[1] :> DefaultFile) ELSE disk
FileUsed(disk, env) == LET p == FoundAt(disk, env) IN IF p # "" THEN disk[p] ELSE IF Writes(env) THEN DefaultFile ELSE NoFile

(* The settings of a run: k = "bad" (must be refused), "unclear" or "ok".        *)
Settings(disk, env, lang, cmd, cli) ==
  LET f == FileUsed(disk, env)
      badCli == \E n \in DOMAIN cli : n \notin Known \/ SectionOf(n) \notin {"", cmd} \/ ~ValueOk(n, cli[n])
      badFile == f.bad \/ \E n \in DOMAIN f.set : n \notin Known \ CliOnly \/ (n \notin DOMAIN Enums /\ ~ValueOk(n, f.set[n]))
      badEnum == {n \in DOMAIN f.set \cap DOMAIN Enums : f.set[n] # "" /\ ~ValueOk(n, f.set[n])}
      \* a wrong value that is of no consequence for this run may be refused or not
      open == badEnum # {} /\ \A n \in badEnum : SectionOf(n) # cmd \/ n \in DOMAIN cli
      set == [n \in {x \in DOMAIN f.set : x \in DOMAIN Enums => f.set[x] # ""} |-> f.set[n]]
  IN IF badCli \/ badFile THEN [k |-> "bad"]
     ELSE IF open THEN [k |-> "unclear"]
     ELSE IF badEnum # {} THEN [k |-> "bad"]
     ELSE [k |-> "ok", s |-> cli @@ set @@ Defaults(lang), macros |-> f.macros]
On(s, n) == s[n] = "true"
===============================================================================
