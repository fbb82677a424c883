--------------------------------- MODULE Cli ----------------------------------
(* The commands that read a ledger: what each makes of a book under given      *)
(* settings, independent of how it is written out, and the texts it is then     *)
(* written as.                                                                  *)
(*                                                                              *)
(* A run r has the fields cmd, ops (operation texts), arg (a regular            *)
(* expression, where the command takes one), rx (see Ops) and rm: the names     *)
(* that each further regular expression matches (absent: it is none).           *)
EXTENDS Register, Summary, Ops, Config, Screen

\* several different prices of one pair on one day: which one counts is not specified
Ambiguous(bk) == \E p \in DOMAIN bk.price : \E n, m \in 1..Len(bk.price[p]) :
                    bk.price[p][n][1] = bk.price[p][m][1] /\ bk.price[p][n][2] # bk.price[p][m][2]

Bads == [k |-> "bad"]
Unclears == [k |-> "unclear"]

\* ---- the book that a command shows
Worked(bk, r, st) ==
  LET os == ReadOps(r.ops, st.macros, r.rx, r.today)
  IN IF Spelled(os, "bad") THEN Bads
     ELSE IF Spelled(os, "unclear") THEN Unclears
     ELSE [k |-> "ok", bk |-> ApplyOps(bk, os, r.rx, r.today)]

\* a book as the rows of a report: one per posting
PlainRows(bk) ==
  LET ks == KeySeq(bk)
      ts == SetToSortSeq(TransOf(bk), TransLt)
      of(t) == SelectSeq(ks, LAMBDA k : KDate(k) = t[1] /\ KPayee(k) = t[2])
  IN [x \in 1..Len(ts) |-> LET q == of(ts[x]) IN
        [d |-> ts[x][1], p |-> ts[x][2], t |-> bk.post[q[1]].t,
         ps |-> [j \in 1..Len(q) |-> [a |-> KAcct(q[j]), c |-> KCcy(q[j]), v |-> bk.post[q[j]].v, l |-> 0, term |-> KAcct(q[j]), n |-> bk.post[q[j]].n]]]]

MatchSet(r, re) == DOMAIN r.rm[re]

(* report: k, the book, its rows, and whether these are a summary               *)
Report(bk, r, st) ==
  LET s == st.s
      w == Worked(bk, r, st)
      bean == SLower(s["report.type"]) = "beancount"
      by == SLower(s["report.combineby"])
      base == s["ccy"]
      b1 == IF bean \/ by = "skip" THEN w.bk ELSE Combine(w.bk, by, r.today)
      b2 == IF bean \/ ~On(s, "report.convert") THEN b1 ELSE Convert(b1, base)
      cr == s["report.credit"]
      credit == IF cr = "" THEN {} ELSE MatchSet(r, cr)
      sum == On(s, "report.sum") /\ ~bean
      acc == SelectSeq(Summary(b2, base, s["divider"], credit, s["report.hidden"]), LAMBDA t : Len(t.ps) > 0)
  IN IF w.k # "ok" THEN w
     ELSE IF ~bean /\ (On(s, "report.convert") \/ sum) /\ base = "" THEN Bads
     ELSE IF ~bean /\ cr # "" /\ cr \notin DOMAIN r.rm THEN Bads
     ELSE IF ~bean /\ (On(s, "report.convert") \/ sum) /\ Ambiguous(b1) THEN Unclears
     ELSE [k |-> "ok", bk |-> b2, sum |-> sum, rows |-> IF sum THEN acc ELSE PlainRows(b2)]

(* register: sections [acct, es] in order; an entry has its balances b, bb      *)
Sections(bk, r, s, accts) ==
  LET from == IF s["register.begin"] = "" THEN 0 ELSE ParseDate(s["register.begin"], r.today)
      to == IF s["register.asof"] = "" THEN 0 ELSE ParseDate(s["register.asof"], r.today)
      n == IntOf(s["register.count"])
      of(as) == LET es == RegisterOf(bk, as, On(s, "register.split"))
                    bal == RegBalances(es)
                    all == [x \in 1..Len(es) |-> es[x] @@ [b |-> bal[x]]]
                IN Order(Limit(InWindow(all, from, to), n), On(s, "register.asc"))
  IN [x \in 1..Len(accts) |-> [acct |-> accts[x].name, es |-> of(accts[x].set)]]
NonZero(bk, a) == \E c \in CcysOf(bk) : SumOver(bk, {k \in DOMAIN bk.post : KAcct(k) = a /\ KCcy(k) = c}) # RZero
ShownAccts(bk, match, all) == SetToSortSeq({a \in AcctsOf(bk) \cap match : all \/ NonZero(bk, a)}, SLt)
Registry(bk, r, st) ==
  LET s == st.s
      base == s["ccy"]
      b0 == IF On(s, "register.convert") THEN Convert(bk, base) ELSE bk
      w == Worked(b0, r, st)
      match == MatchSet(r, r.arg)
      accts == IF On(s, "register.combined") THEN <<[name |-> "", set |-> match]>>
               ELSE LET q == ShownAccts(w.bk, match, On(s, "all")) IN [x \in 1..Len(q) |-> [name |-> q[x], set |-> {q[x]}]]
      baddate(t) == t # "" /\ ParseDate(t, r.today) = 0
      opendate(t) == t # "" /\ ParseDate(t, r.today) = 0 /\ Unclear(t)
  IN IF opendate(s["register.begin"]) \/ opendate(s["register.asof"]) THEN Unclears
     ELSE IF baddate(s["register.begin"]) \/ baddate(s["register.asof"]) THEN Bads
     ELSE IF On(s, "register.convert") /\ base = "" THEN Bads
     ELSE IF w.k # "ok" THEN w
     ELSE IF r.arg \notin DOMAIN r.rm THEN Bads
     ELSE IF On(s, "register.convert") /\ Ambiguous(bk) THEN Unclears
     ELSE [k |-> "ok", bk |-> w.bk, secs |-> Sections(w.bk, r, s, accts)]

Export(bk, r, st) == LET w == Worked(bk, r, st) IN IF w.k # "ok" THEN w ELSE w @@ [rows |-> PlainRows(w.bk)]
Accts(bk, r, st) == IF r.arg \notin DOMAIN r.rm THEN Bads ELSE [k |-> "ok", bk |-> bk, accts |-> ShownAccts(bk, MatchSet(r, r.arg), On(st.s, "all"))]

Commands == {"report", "register", "export", "accts", "ccy"}
Outcome(bk, r, st) ==
  IF st.k # "ok" THEN st
  ELSE CASE r.cmd = "report" -> Report(bk, r, st)
         [] r.cmd = "register" -> Registry(bk, r, st)
         [] r.cmd = "export" -> Export(bk, r, st)
         [] r.cmd = "accts" -> Accts(bk, r, st)
         [] r.cmd = "ccy" -> [k |-> "ok", bk |-> bk]
\* how it is written: text, json, csv, ledger, beancount, html
TypeOf(r, st) == CASE r.cmd \in {"report", "register", "export"} -> SLower(st.s[r.cmd \o ".type"])
                   [] r.cmd = "accts" -> IF On(st.s, "accts.json") THEN "json" ELSE "text"
                   [] OTHER -> "text"

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
DecOfCcy(bk, c) == IF c \in DOMAIN bk.dec THEN bk.dec[c] ELSE 2
RowKey(x) == <<x.a, x.term, x.c, x.l>>
\* a report as a table: a column per transaction, the rows of the last one
Tabled(rows) == LET last == rows[Len(rows)].ps
                    keys == {RowKey(last[n]) : n \in 1..Len(last)}
                IN \A x \in 1..Len(rows) : \A j \in 1..Len(rows[x].ps) : RowKey(rows[x].ps[j]) \in keys
ReportTable(bk, rows, s) ==
  LET last == rows[Len(rows)].ps
      lang == s["lang"]
      head == <<LInk("Account", "ul")>> \o [x \in 1..Len(rows) |-> RInk(DateText(rows[x].d), "ul")]
      name(y) == IF y.l = 0 THEN LInk(y.term, "blueul") ELSE L(Blank(2 * y.l) \o y.term)
      at(x, y) == LET js == {j \in 1..Len(rows[x].ps) : RowKey(rows[x].ps[j]) = RowKey(y)} IN
                  IF js = {} THEN L("") ELSE LET z == rows[x].ps[CHOOSE j \in js : TRUE] IN Money(z.c, z.v, DecOfCcy(bk, z.c), lang)
      line(n) == (IF n > 1 /\ last[n].l = 0 THEN << << >> >> ELSE << >>)
                 \o << <<name(last[n])>> \o [x \in 1..Len(rows) |-> at(x, last[n])] >>
  IN <<head>> \o FlattenSeq([n \in 1..Len(last) |-> line(n)])
RegisterTable(bk, es, s) ==
  LET comb == On(s, "register.combined")
      m(e, v) == Money(e.c, v, DecOfCcy(bk, e.c), s["lang"])
      head == <<LInk("Date", "ul"), LInk("Payee", "ul")>> \o (IF comb THEN <<LInk("Account", "ul")>> ELSE << >>)
              \o <<LInk("Counteraccount", "ul"), RInk("Amount", "ul"), RInk("Balance", "ul")>>
      line(e) == <<L(DateText(e.d)), L(e.p)>> \o (IF comb THEN <<L(e.a)>> ELSE << >>) \o <<L(e.ca), m(e, e.v), m(e, e.b)>>
  IN <<head>> \o [x \in 1..Len(es) |-> line(es[x])]
Banner(acct, s) == IF On(s, "register.combined") THEN "" ELSE "\n" \o Ink(On(s, "colour"), "blueul", acct) \o "\n"

RegisterMay(s) == <<FALSE, TRUE>> \o (IF On(s, "register.combined") THEN <<TRUE>> ELSE << >>) \o <<TRUE, FALSE, FALSE>>
\* the parts a command's output is made of (see Shown); k = "bad" when it cannot be
PartsOf(r, st, out) ==
  LET s == st.s
      part(t, rows, may) == [text |-> t, rows |-> rows, may |-> may]
      none(rows) == [c \in 1..(IF rows = << >> THEN 0 ELSE Len(rows[1])) |-> FALSE]
      ok(ps) == [k |-> "ok", ps |-> ps] IN
  CASE r.cmd = "report" -> IF out.rows = << >> THEN ok(<< >>)
                           ELSE IF ~Tabled(out.rows) THEN Bads
                           ELSE LET rows == ReportTable(out.bk, out.rows, s) IN ok(<<part("", rows, none(rows))>>)
    [] r.cmd = "register" -> ok([x \in 1..Len(out.secs) |-> part(Banner(out.secs[x].acct, s), RegisterTable(out.bk, out.secs[x].es, s), RegisterMay(s))])
    [] r.cmd = "accts" -> LET rows == << <<LInk("Account", "blueul")>> >> \o [x \in 1..Len(out.accts) |-> <<L(out.accts[x])>>] IN ok(<<part("", rows, none(rows))>>)
    [] r.cmd = "ccy" -> LET cs == SetToSortSeq(DOMAIN out.bk.dec, SLt) IN
                        ok(<<part(SJoin([x \in 1..Len(cs) |-> cs[x] \o " => " \o SOfInt(out.bk.dec[cs[x]]) \o " decimals\n"], ""), << >>, << >>)>>)
\* the text a command prints when there is no terminal; Bads when it cannot print one
TextOf(r, st, out) == LET ps == PartsOf(r, st, out) IN IF ps.k = "bad" THEN ps ELSE [k |-> "ok", t |-> PartsText(ps.ps, On(st.s, "colour"), NoTerm)]
ShownOf(r, st, out, term) == Shown(PartsOf(r, st, out).ps, On(st.s, "colour"), term)
===============================================================================
