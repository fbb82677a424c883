-------------------------------- MODULE Script --------------------------------
(* Import and generator scripts: how files become the data a script sees, what *)
(* a script's statements do, and what import and generate give as a result.    *)
(*                                                                             *)
(* A script is a sequence of statements, each a record:                        *)
(*   add    a: name -> expression          one transaction                     *)
(*   print  x: expression                  a comment in the output             *)
(*   show   x: expression                  (for observation: a value in full)  *)
(*   each   x: expression, b: statements   for every element of a list         *)
(*   when   x: expression, v: text, b      if the two are equal                *)
(*   error  v: text                        stop with this message              *)
(*   broken                                not a statement at all              *)
(*   book   t: text of an operation        data.since / asof / map             *)
(*   posts  b: statements                  for every posting of the book       *)
(* Expressions name data, the current element (and what is in it), the file    *)
(* name, fields of the current posting, or are literals.                       *)
EXTENDS Import, Loader, Ops

\* ---- values a script can see
Txt(v) == [t |-> "s", v |-> v]
None == [t |-> "none"]
Nothing == [t |-> "bad"]
Short(x) == LET k == RDecNeed(x) IN RIsDecimal(x, k) /\ RLt(RDiv(RAbs(x), RTenth(k)), "1000000000000000/1")
\* a floating-point number: what it is, and the decimal number it was written as
Flo(x) == [t |-> "f", v |-> RNearest64(x), w |-> IF Short(x) THEN x ELSE "?"]
Dict(f) == [t |-> "d", f |-> f]
RECURSIVE Flat(_)
Flat(x) == CASE x.t = "s" -> <<"s" \o x.v>>
             [] x.t = "f" -> <<"f" \o x.v>>
             [] x.t = "i" -> <<"i" \o x.v>>
             [] x.t = "b" -> <<"b" \o x.v>>
             [] x.t = "none" -> <<"n">>
             [] x.t = "l" -> <<"[">> \o FlattenSeq([n \in 1..Len(x.q) |-> Flat(x.q[n])]) \o <<"]">>
             [] x.t = "d" -> LET ks == SetToSortSeq(DOMAIN x.f, SLt) IN
                             <<"{">> \o FlattenSeq([n \in 1..Len(ks) |-> <<"k" \o ks[n]>> \o Flat(x.f[ks[n]])]) \o <<"}">>
             [] OTHER -> <<"?">>

\* ---- CSV: fields between delimiters, quoted where they hold one, or a quote, or a line end;
\*      blanks before a field are not part of it (unless blanks are what separates fields)
IsSpaceRune(c) == IsBlank(c) \/ c = 10 \/ IsOddWS(c)
DelimOk(d) == Len(d) = 1 /\ d[1] \notin {34, 13, 10, 65533}
CsvCodes(txt) == LET cs == SCodes(SReplace(txt, "\r\n", "\n")) IN IF cs # << >> /\ cs[Len(cs)] = 13 THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs
Csv0 == [m |-> "start", fresh |-> TRUE, cur |-> << >>, row |-> << >>, rows |-> << >>]
CsvField(s, m) == [s EXCEPT !.row = Append(@, SOfCodes(s.cur)), !.cur = << >>, !.m = m, !.fresh = FALSE]
CsvRow(s) == LET x == CsvField(s, "start") IN [x EXCEPT !.rows = Append(@, x.row), !.row = << >>, !.fresh = TRUE]
CsvStep(s, c, dl) ==
  CASE s.m = "bad" -> s
    [] s.m = "start" -> IF c = 10 THEN IF s.fresh THEN s ELSE CsvRow(s)
                        ELSE IF c = dl THEN CsvField(s, "start")
                        ELSE IF IsSpaceRune(c) /\ ~IsSpaceRune(dl) THEN [s EXCEPT !.fresh = FALSE]
                        ELSE IF c = 34 THEN [s EXCEPT !.m = "quoted", !.fresh = FALSE]
                        ELSE [s EXCEPT !.m = "plain", !.cur = <<c>>, !.fresh = FALSE]
    [] s.m = "plain" -> IF c = 10 THEN CsvRow(s) ELSE IF c = dl THEN CsvField(s, "start") ELSE IF c = 34 THEN [s EXCEPT !.m = "bad"] ELSE [s EXCEPT !.cur = Append(@, c)]
    [] s.m = "quoted" -> IF c = 34 THEN [s EXCEPT !.m = "closed"] ELSE [s EXCEPT !.cur = Append(@, c)]
    [] s.m = "closed" -> IF c = 34 THEN [s EXCEPT !.m = "quoted", !.cur = Append(@, 34)]
                         ELSE IF c = 10 THEN CsvRow(s) ELSE IF c = dl THEN CsvField(s, "start") ELSE [s EXCEPT !.m = "bad"]
CsvRows(txt, dl) ==
  LET s == FoldLeft(LAMBDA x, c : CsvStep(x, c, dl), Csv0, CsvCodes(txt))
      z == IF s.m \in {"bad", "quoted"} THEN [s EXCEPT !.m = "bad"] ELSE IF s.fresh THEN s ELSE CsvRow(s)
  IN IF z.m = "bad" \/ \E n \in 1..Len(z.rows) : Len(z.rows[n]) # Len(z.rows[1]) THEN [k |-> "bad"] ELSE [k |-> "ok", rows |-> z.rows]
CsvValue(txt, delim, header) ==
  IF ~DelimOk(SCodes(delim)) THEN [k |-> "bad"]
  ELSE LET x == CsvRows(txt, SCodes(delim)[1])
           list(r) == [t |-> "l", q |-> [n \in 1..Len(r) |-> Txt(r[n])]]
           h == x.rows[1]
           dict(r) == Dict([c \in {h[n] : n \in 1..Len(h)} |-> Txt(r[CHOOSE n \in 1..Len(h) : h[n] = c])])
       IN IF x.k = "bad" THEN x
          ELSE IF ~header THEN [k |-> "ok", v |-> [t |-> "l", q |-> [n \in 1..Len(x.rows) |-> list(x.rows[n])]]]
          ELSE IF x.rows = << >> \/ \E n, m \in 1..Len(h) : n # m /\ h[n] = h[m] THEN [k |-> "unclear"]
          ELSE [k |-> "ok", v |-> [t |-> "l", q |-> [n \in 1..Len(x.rows) - 1 |-> dict(x.rows[n + 1])]]]

\* ---- JSON
JBad == [k |-> "bad"]
JOdd == [k |-> "unclear"]
JOk(i, v) == [k |-> "ok", i |-> i, v |-> v]
JWs(cs, i) == LET RECURSIVE W(_)
                  W(j) == IF At(cs, j) \in {32, 9, 10, 13} THEN W(j + 1) ELSE j
              IN W(i)
Hex(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(cs, i) == LET h == [n \in 1..4 |-> Hex(At(cs, i + n - 1))] IN
   IF \E n \in 1..4 : h[n] < 0 THEN -1 ELSE ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4]
JEsc == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
\* after the opening quote
JText(cs, i0) ==
  LET RECURSIVE S(_, _)
      S(i, acc) == LET c == At(cs, i) IN
        IF c = 34 THEN JOk(i + 1, SOfCodes(acc))
        ELSE IF c < 32 THEN JBad
        ELSE IF c # 92 THEN S(i + 1, Append(acc, c))
        ELSE IF At(cs, i + 1) \in DOMAIN JEsc THEN S(i + 2, Append(acc, JEsc[At(cs, i + 1)]))
        ELSE IF At(cs, i + 1) # 117 THEN JBad
        ELSE LET u == Hex4(cs, i + 2) IN
             IF u < 0 THEN JBad
             ELSE IF u < 55296 \/ u > 57343 THEN S(i + 6, Append(acc, u))
             ELSE LET w == IF At(cs, i + 6) = 92 /\ At(cs, i + 7) = 117 THEN Hex4(cs, i + 8) ELSE -1 IN
                  IF u < 56320 /\ w >= 56320 /\ w <= 57343 THEN S(i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (w - 56320))) ELSE JOdd
  IN S(i0, << >>)
JDigits(cs, i) == Span(cs, i, "digit")
JNumber(cs, i) ==
  LET a == IF At(cs, i) = 45 THEN i + 1 ELSE i
      b == JDigits(cs, a)
      c == IF At(cs, b) = 46 THEN JDigits(cs, b + 1) ELSE b
      e == At(cs, c) \in {69, 101}
      s == IF At(cs, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
      d == IF e THEN JDigits(cs, s) ELSE c
  IN IF b = a \/ (At(cs, a) = 48 /\ b > a + 1) \/ c = b + 1 \/ (e /\ d = s) THEN JBad
     ELSE IF (e /\ d > s + 2) \/ d > i + 40 THEN JOdd
     ELSE LET x == RDec(SOfCodes(Cut(cs, i, d))) IN
          IF x = RZero /\ a > i THEN JOdd ELSE JOk(d, Flo(x))       \* -0
JWord(cs, i, w, v) == LET q == SCodes(w) IN IF i + Len(q) <= Len(cs) + 1 /\ Cut(cs, i, i + Len(q)) = q THEN JOk(i + Len(q), v) ELSE JBad
RECURSIVE JVal(_, _)
JVal(cs, i0) ==
  LET i == JWs(cs, i0)
      c == At(cs, i)
      \* elements of a list from i on, first: before any element
      RECURSIVE L(_, _, _)
      L(j0, acc, first) == LET j == JWs(cs, j0) IN
        IF first /\ At(cs, j) = 93 THEN JOk(j + 1, [t |-> "l", q |-> acc])
        ELSE LET x == JVal(cs, j) IN IF x.k # "ok" THEN x
             ELSE LET m == JWs(cs, x.i) IN
                  IF At(cs, m) = 44 THEN L(m + 1, Append(acc, x.v), FALSE)
                  ELSE IF At(cs, m) = 93 THEN JOk(m + 1, [t |-> "l", q |-> Append(acc, x.v)]) ELSE JBad
      RECURSIVE D(_, _, _, _)
      D(j0, acc, odd, first) == LET j == JWs(cs, j0)
                                    done(m, f, o) == IF o THEN [k |-> "unclear", i |-> m] ELSE JOk(m, Dict(f)) IN
        IF first /\ At(cs, j) = 125 THEN JOk(j + 1, Dict(acc))
        ELSE IF At(cs, j) # 34 THEN JBad
        ELSE LET key == JText(cs, j + 1) IN IF key.k # "ok" THEN key
             ELSE LET p == JWs(cs, key.i) IN IF At(cs, p) # 58 THEN JBad
             ELSE LET x == JVal(cs, p + 1) IN IF x.k # "ok" THEN x
             ELSE LET m == JWs(cs, x.i)
                      f == (key.v :> x.v) @@ acc
                      o == odd \/ x.v.t = "none" \/ key.v \in DOMAIN acc     \* null in a dictionary, or the same key twice
                  IN IF At(cs, m) = 44 THEN D(m + 1, f, o, FALSE) ELSE IF At(cs, m) = 125 THEN done(m + 1, f, o) ELSE JBad
  IN CASE c = 91 -> L(i + 1, << >>, TRUE)
       [] c = 123 -> D(i + 1, [x \in {} |-> None], FALSE, TRUE)
       [] c = 34 -> LET x == JText(cs, i + 1) IN IF x.k = "ok" THEN JOk(x.i, Txt(x.v)) ELSE x
       [] c = 116 -> JWord(cs, i, "true", [t |-> "b", v |-> "true"])
       [] c = 102 -> JWord(cs, i, "false", [t |-> "b", v |-> "false"])
       [] c = 110 -> JWord(cs, i, "null", None)
       [] c = 45 \/ IsDig(c) -> JNumber(cs, i)
       [] OTHER -> JBad
JsonValue(txt) == LET cs == SCodes(txt) x == JVal(cs, 1) IN
  IF x.k # "ok" THEN [k |-> x.k] ELSE IF JWs(cs, x.i) = Len(cs) + 1 THEN [k |-> "ok", v |-> x.v] ELSE JBad

\* ---- what a format gives: f = [type, params], params: name -> text
Param(f, n, dflt) == IF n \in DOMAIN f.params THEN f.params[n] ELSE dflt
DataOf(f, txt) ==
  CASE f.type = "json" -> JsonValue(txt)
    [] f.type = "csv" -> LET h == SLower(Param(f, "header", "false")) IN
         IF h \notin {"true", "false"} THEN [k |-> "bad"] ELSE CsvValue(txt, Param(f, "delim", ","), h = "true")
    [] OTHER -> [k |-> "bad"]

\* ---- amounts
Numeral(cs) == LET a == IF At(cs, 1) \in {43, 45} THEN 2 ELSE 1
                   b == JDigits(cs, a)
                   c == IF At(cs, b) = 46 THEN JDigits(cs, b + 1) ELSE b
                   e == At(cs, c) \in {69, 101}
                   s == IF At(cs, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
                   d == IF e THEN JDigits(cs, s) ELSE c
                   ok == (b > a \/ c > b + 1) /\ d = Len(cs) + 1 /\ (e => d > s /\ d <= s + 2)
                   sl == At(cs, b) = 47
                   x == JDigits(cs, b + 1)
                   sign(v) == IF At(cs, 1) = 45 THEN RNeg(v) ELSE v
                   mant == Cut(cs, a, c)
                   odd == \E n \in 1..Len(cs) : ~(IsDig(cs[n]) \/ cs[n] \in {43, 45, 46, 47, 95} \/ (cs[n] >= 65 /\ cs[n] <= 70) \/ (cs[n] >= 97 /\ cs[n] <= 102)
                                                  \/ cs[n] \in {79, 111, 80, 112, 88, 120})
                   full == (IF mant[1] = 46 THEN <<48>> ELSE << >>) \o mant \o (IF mant[Len(mant)] = 46 THEN <<48>> ELSE << >>)
               IN IF ok THEN [k |-> "ok", v |-> sign(RDec(SOfCodes(full \o Cut(cs, c, d))))]
                  ELSE IF sl /\ b > a /\ x > b + 1 /\ x = Len(cs) + 1
                       THEN LET y == RDec(SOfCodes(Cut(cs, b + 1, x))) IN IF y = RZero THEN [k |-> "bad"] ELSE [k |-> "ok", v |-> sign(RDiv(RDec(SOfCodes(Cut(cs, a, b))), y))]
                  ELSE IF cs = << >> \/ odd \/ Cardinality({n \in 1..Len(cs) : cs[n] = 46}) > 1 \/ (At(cs, 1) \in {43, 45} /\ At(cs, 2) \in {43, 45, -1})
                       THEN [k |-> "bad"] ELSE [k |-> "unclear"]
AmtOf(x) == CASE x.t = "i" -> [k |-> "ok", v |-> RDec(x.v)]
              [] x.t = "f" -> IF x.w = "?" THEN [k |-> "unclear"] ELSE [k |-> "ok", v |-> x.w]
              [] x.t = "s" -> Numeral(SCodes(x.v))
              [] OTHER -> [k |-> "bad"]

\* ---- add(): df = [account, ccy, caccount], the defaults
TextArgs == {"date", "desc", "ccy", "account", "ccy2", "account2", "caccount", "note", "lnote"}
AddArgs == TextArgs \cup {"amt", "amt2", "denom", "denom2"}
Fail(st, k) == [st EXCEPT !.k = k]
AddTxn(st, a, df, today) ==
  LET has(n) == n \in DOMAIN a
      text(n, d) == IF has(n) THEN a[n].v ELSE d
      wrong == \/ ~(DOMAIN a \subseteq AddArgs) \/ ~({"date", "desc", "amt"} \subseteq DOMAIN a)
               \/ \E n \in DOMAIN a : a[n].t = "bad" \/ (n \in TextArgs /\ a[n].t # "s") \/ (n \in {"denom", "denom2"} /\ a[n].t # "i")
      d == ParseDate(a["date"].v, today)
      over(x, n) == IF x.k # "ok" THEN x ELSE IF has(n) /\ ROf(a[n].v) = RZero THEN [k |-> "bad"]
                    ELSE IF has(n) THEN [x EXCEPT !.v = RDiv(@, ROf(a[n].v))] ELSE x
      m1 == over(AmtOf(a["amt"]), "denom")
      second == has("amt2") /\ a["amt2"].t # "none"
      acc2 == text("account2", "")
      m2 == over(AmtOf(a["amt2"]), "denom2")
      ccy == text("ccy", df.ccy)
      cacct == text("caccount", df.caccount)
      ps1 == <<[a |-> text("account", df.account), c |-> ccy, v |-> m1.v, n |-> text("lnote", "")], [a |-> cacct, c |-> ccy, v |-> RNeg(m1.v), n |-> ""]>>
      c2 == text("ccy2", df.ccy)
      ps2 == <<[a |-> acc2, c |-> c2, v |-> m2.v, n |-> ""], [a |-> cacct, c |-> c2, v |-> RNeg(m2.v), n |-> ""]>>
      two == second \/ acc2 # ""
  IN IF wrong THEN Fail(st, "bad")
     ELSE IF d = 0 THEN Fail(st, IF Unclear(a["date"].v) THEN "unclear" ELSE "bad")
     ELSE IF m1.k # "ok" THEN Fail(st, m1.k)
     ELSE IF two /\ ~(second /\ acc2 # "") THEN Fail(st, "bad")
     ELSE IF two /\ m2.k # "ok" THEN Fail(st, m2.k)
     ELSE IF second /\ ~has("ccy2") /\ has("ccy") THEN Fail(st, "unclear")     \* which default is meant
     ELSE [st EXCEPT !.txns = Append(@, [d |-> d, p |-> a["desc"].v, n |-> text("note", ""), ps |-> ps1 \o (IF two THEN ps2 ELSE << >>)])]

\* ---- expressions; env = [data, rec, file, post], each present or Nothing
One(s) == IF Cardinality(s) = 1 THEN Txt(CHOOSE x \in s : TRUE) ELSE [t |-> "odd"]
Field(x, f) ==      \* x: a posting, [k, v, n, t, bal]
  CASE f = "date" -> Txt(DateText(KDate(x.k))) [] f = "payee" -> Txt(KPayee(x.k)) [] f = "account" -> Txt(KAcct(x.k)) [] f = "ccy" -> Txt(KCcy(x.k))
    [] f = "amount" -> Flo(x.v) [] f = "balance" -> Flo(x.bal) [] f = "posting_note" -> One(x.n) [] f = "transaction_note" -> One(x.t)
    [] OTHER -> Nothing
At1(x, w) == CASE x.t = "d" -> IF w.t = "s" /\ w.v \in DOMAIN x.f THEN x.f[w.v] ELSE Nothing
               [] x.t = "l" -> IF w.t = "i" /\ w.n < Len(x.q) THEN x.q[w.n + 1] ELSE Nothing
               [] OTHER -> Nothing
Value(x, env) ==
  CASE x.e = "s" -> Txt(x.v) [] x.e = "f" -> Flo(RDec(x.v)) [] x.e = "i" -> [t |-> "i", v |-> x.v] [] x.e = "none" -> None
    [] x.e = "b" -> [t |-> "b", v |-> x.v] [] x.e = "file" -> Txt(env.file)
    [] x.e = "data" -> FoldLeft(At1, env.data, x.path)
    [] x.e = "rec" -> FoldLeft(At1, env.rec, x.path)
    [] x.e = "post" -> IF env.post = << >> THEN Nothing ELSE Field(env.post[1], x.f)
Odd(x) == x.t = "odd"

\* ---- statements
\* st = [k, txns, out (comment lines), shown, bk (the data of a generator), msg]
St0(bk) == [k |-> "ok", txns |-> << >>, out |-> << >>, shown |-> << >>, bk |-> bk, msg |-> ""]
Postings(bk) ==
  LET ks == KeySeq(bk)
      run(n) == FoldLeft(LAMBDA a, m : IF m <= n /\ KAcct(ks[m]) = KAcct(ks[n]) /\ KCcy(ks[m]) = KCcy(ks[n]) THEN RAdd(a, bk.post[ks[m]].v) ELSE a, RZero, [m \in 1..n |-> m])
  IN [n \in 1..Len(ks) |-> [k |-> ks[n], v |-> bk.post[ks[n]].v, n |-> bk.post[ks[n]].n, t |-> bk.post[ks[n]].t, bal |-> run(n)]]
RECURSIVE Does(_, _, _, _)
\* w = [df, rx, today]: the defaults, what regular expressions do, the day
Does(st, s, env, w) ==
  IF st.k # "ok" THEN st
  ELSE CASE s.s = "add" ->
              LET a == [n \in DOMAIN s.a |-> Value(s.a[n], env)] IN
              IF \E n \in DOMAIN a : Odd(a[n]) THEN Fail(st, "unclear") ELSE AddTxn(st, a, w.df, w.today)
         [] s.s = "print" -> LET x == Value(s.x, env) IN
              IF x.t = "s" THEN [st EXCEPT !.out = @ \o [n \in 1..Len(SSplit(x.v, "\n")) |-> "; " \o SSplit(x.v, "\n")[n]]]
              ELSE Fail(st, IF x.t = "bad" THEN "bad" ELSE "unclear")
         [] s.s = "show" -> LET x == Value(s.x, env) IN IF x.t = "bad" THEN Fail(st, "bad") ELSE IF Odd(x) THEN Fail(st, "unclear") ELSE [st EXCEPT !.shown = Append(@, Flat(x))]
         [] s.s = "each" -> LET x == Value(s.x, env) IN
              IF x.t = "l" THEN FoldLeft(LAMBDA y, r : FoldLeft(LAMBDA z, b : Does(z, b, [env EXCEPT !.rec = r], w), y, s.b), st, x.q)
              ELSE Fail(st, IF x.t \in {"d", "odd"} THEN "unclear" ELSE "bad")
         [] s.s = "when" -> LET x == Value(s.x, env) IN
              IF x.t \in {"bad"} THEN Fail(st, "bad") ELSE IF x.t # "s" THEN Fail(st, "unclear")
              ELSE IF x.v = s.v THEN FoldLeft(LAMBDA z, b : Does(z, b, env, w), st, s.b) ELSE st
         [] s.s = "error" -> [Fail(st, "bad") EXCEPT !.msg = s.v]
         [] s.s = "broken" -> Fail(st, "bad")
         [] s.s = "book" -> LET o == ReadOp(s.t, w.rx, w.today) IN
              IF o.k \in {"since", "asof", "map"} THEN [st EXCEPT !.bk = ApplyOp(@, o, w.rx, w.today)] ELSE Fail(st, o.k)
         [] s.s = "posts" -> LET ps == Postings(st.bk) IN
              FoldLeft(LAMBDA y, n : FoldLeft(LAMBDA z, b : Does(z, b, [env EXCEPT !.post = <<ps[n]>>], w), y, s.b), st, [n \in 1..Len(ps) |-> n])
\* a script that is not one does nothing at all
RECURSIVE Broken(_)
Broken(b) == \E n \in 1..Len(b) : b[n].s = "broken" \/ ("b" \in DOMAIN b[n] /\ Broken(b[n].b))
Runs(bk, script, env, w) == IF Broken(script) THEN Fail(St0(bk), "bad") ELSE FoldLeft(LAMBDA z, s : Does(z, s, env, w), St0(bk), script)

\* ---- similarity of payees (Jaro-Winkler): [v, odd], odd: on the edge of a threshold
Jaro(p, q) ==
  LET a == SCodes(p)
      b == SCodes(q)
      n == Len(a)
      m == Len(b)
      long == IF n > m THEN n ELSE m
      near == IF long \div 2 > 1 THEN long \div 2 - 1 ELSE 0
      s == FoldLeft(LAMBDA x, u : LET js == {j \in (IF u > near THEN u - near ELSE 1)..(IF u + near < m THEN u + near ELSE m) : j \notin x.took /\ b[j] = a[u]} IN
                       IF js = {} THEN x ELSE LET j == CHOOSE j \in js : \A y \in js : j <= y IN [took |-> x.took \cup {j}, ma |-> Append(x.ma, a[u])],
                    [took |-> {}, ma |-> << >>], [u \in 1..n |-> u])
      c == Len(s.ma)
      ks == SetToSortSeq(s.took, <)
      t == Cardinality({u \in 1..c : s.ma[u] # b[ks[u]]}) \div 2
      frac(x, y) == RDiv(ROf(x), ROf(y))
      d0 == RDiv(RAdd(RAdd(frac(c, n), frac(c, m)), frac(c - t, c)), "3/1")
      pre == LET most == IF long >= 4 THEN 4 ELSE long
                 same == {u \in 0..most : u <= n /\ u <= m /\ \A y \in 1..u : a[y] = b[y] /\ ~IsDig(a[y])}
             IN CHOOSE u \in same : \A y \in same : y <= u
      rest(d) == RSub("1/1", d)
      d1 == RAdd(d0, RMul(frac(pre, 10), rest(d0)))
      d2 == IF long > 4 /\ c > pre + 1 /\ 2 * c >= long + pre /\ ~IsDig(a[1]) THEN RAdd(d1, RMul(rest(d1), frac(c - pre - 1, n + m - 2 * pre + 2))) ELSE d1
      v == IF RLt("7/10", d0) THEN d2 ELSE d0
  IN IF n = 0 \/ m = 0 \/ c = 0 THEN [v |-> RZero, odd |-> FALSE]
     ELSE [v |-> IF RLt("1/2", v) THEN v ELSE RZero, odd |-> d0 = "7/10" \/ v = "1/2"]
JaroOf(ps, qs) == [p \in ps |-> [q \in qs |-> Jaro(p, q)]]

\* ---- import of files, [n, t] each: what is left of each, and what was printed
\* e = [files, fmt, script, df, dedup, reclass, rx, today]
Union(b1, b2) == [b1 EXCEPT !.post = @ @@ b2.post]
ImportFiles(main, e, b) ==      \* b(n): the run of the script on file n
  LET step(acc, n) ==
        IF acc.k # "ok" THEN acc
        ELSE LET s == b[n] IN
             IF s.k # "ok" THEN [acc EXCEPT !.k = s.k, !.msg = s.msg]
             ELSE LET b0 == Build(s.txns, << >>)
                      b1 == IF e.dedup THEN Dedup(b0, main) ELSE b0
                      b2 == Dedup(b1, acc.bk)
                  IN [acc EXCEPT !.bk = Union(@, b2), !.out = @ \o s.out, !.shown = @ \o s.shown]
  IN FoldLeft(step, [k |-> "ok", bk |-> EmptyBook, out |-> << >>, shown |-> << >>, msg |-> ""], [n \in 1..Len(b) |-> n])
RunOn(e, f, w) == LET d == DataOf(e.fmt, f.t) IN
  IF d.k # "ok" THEN Fail(St0(EmptyBook), d.k) ELSE Runs(EmptyBook, e.script, [data |-> d.v, rec |-> Nothing, file |-> f.n, post |-> << >>], w)
World(e) == [df |-> e.df, rx |-> e.rx, today |-> e.today]
Imported(main, e) == ImportFiles(main, e, [n \in 1..Len(e.files) |-> RunOn(e, e.files[n], World(e))])
Generated(main, e) ==
  LET s == Runs(main, e.script, [data |-> Nothing, rec |-> Nothing, file |-> "", post |-> << >>], World(e))
      b0 == Build(s.txns, << >>)
  IN IF s.k # "ok" THEN [k |-> s.k, msg |-> s.msg]
     ELSE [k |-> "ok", bk |-> IF e.dedup THEN Dedup(b0, main) ELSE b0, out |-> s.out, shown |-> s.shown, msg |-> ""]
===============================================================================
