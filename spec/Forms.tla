-------------------------------- MODULE Forms ---------------------------------
(* What a program's outputs in a machine-readable form must say about a book:   *)
(* records (JSON, CSV), ledger text and Beancount text.                         *)
EXTENDS Cli, Loader

\* ---- output forms
SameList(F(_, _), got, exp) == Len(got) = Len(exp) /\ \A n \in 1..Len(got) : F(got[n], exp[n])
N64(v) == RNearest64(v)
PostRec(g, x, sum) == g.a = x.a /\ g.c = x.c /\ g.v = N64(x.v) /\ (sum \/ g.n \in x.n)
TransRec(g, x, sum) == /\ g.d = DateText(x.d) /\ g.p = x.p /\ (sum \/ g.n \in x.t)
                       /\ SameList(LAMBDA y, z : PostRec(y, z, sum), g.ps, x.ps)
BaseOk(g, bk1, e, base) == LET bs == BaseValues(bk1, e, base) IN
   g.bc = base /\ (bs = {} \/ Ambiguous(bk1) \/ \E y \in bs : g.bv = N64(y[1]) /\ g.bk = y[2])
EntryRec(g, x, json) == /\ g.d = DateText(x.d) /\ g.p = x.p /\ g.a = x.a /\ g.ca = x.ca /\ g.c = x.c /\ g.v = N64(x.v) /\ g.b = N64(x.b)
                        /\ json => g.n \in x.n /\ g.t \in x.t

\* flat rows of an export
FlatRows(rows) == FlattenSeq([x \in 1..Len(rows) |-> [j \in 1..Len(rows[x].ps) |->
                     [d |-> rows[x].d, p |-> rows[x].p, t |-> rows[x].t, y |-> rows[x].ps[j]]]])
CsvRec(g, x) == g.d = DateText(x.d) /\ g.p = x.p /\ g.t \in x.t /\ g.a = x.y.a /\ g.c = x.y.c /\ g.v = N64(x.y.v) /\ g.n \in x.y.n

\* what a ledger text can say
PayeeOk(p) == LET cs == SCodes(p) IN Trim(cs) = cs /\ ((cs # << >> /\ cs[1] = 42) \/ SContains(p, ";") => ~SContains(p, "\"")) /\ (cs = << >> \/ cs[1] # 34)
AcctOk(a) == LET cs == SCodes(a) IN cs # << >> /\ \A n \in 1..Len(cs) : IsAcctRune(cs[n])
CcyOk(c) == c # "" /\ ~SContains(c, "\"")
Expressible(b) == /\ \A k \in DOMAIN b.post : PayeeOk(KPayee(k)) /\ AcctOk(KAcct(k)) /\ CcyOk(KCcy(k)) /\ RIsDecimal(b.post[k].v, RDecNeed(b.post[k].v))
                  /\ \A p \in DOMAIN b.price : CcyOk(p[1]) /\ CcyOk(p[2]) /\ \A n \in 1..Len(b.price[p]) : RIsDecimal(b.price[p][n][2], RDecNeed(b.price[p][n][2]))
Count(q, x) == Cardinality({n \in 1..Len(q) : q[n] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A n \in 1..Len(p) : Count(p, p[n]) = Count(q, p[n])
\* the posting whose transaction note a text has
First(b, k) == CHOOSE x \in DOMAIN b.post : KDate(x) = KDate(k) /\ KPayee(x) = KPayee(k)
                 /\ \A y \in DOMAIN b.post : KDate(y) = KDate(k) /\ KPayee(y) = KPayee(k) => y = x \/ KeyLt(x, y)
LedgerFaults(b, txt, prices) ==
  IF ~Expressible(b) THEN {}
  ELSE LET st == LoadTexts(<<[n |-> "x", t |-> txt]>>, "x") IN
       IF st.s = "unclear" THEN {}
       ELSE IF st.s = "bad" THEN {"not-loadable"}
       ELSE LET g == LoadedBook(st) IN
            (IF [k \in DOMAIN g.post |-> g.post[k].v] # [k \in DOMAIN b.post |-> b.post[k].v] THEN {"ledger-postings"} ELSE {})
            \cup (IF \E k \in DOMAIN g.post \cap DOMAIN b.post : ~(g.post[k].n \subseteq b.post[k].n /\ g.post[k].t \subseteq b.post[First(b, k)].t) THEN {"ledger-notes"} ELSE {})
            \cup (IF prices /\ (DOMAIN g.price # DOMAIN b.price \/ \E p \in DOMAIN g.price \cap DOMAIN b.price : ~SameBag(g.price[p], b.price[p])) THEN {"ledger-prices"} ELSE {})

\* beancount: g = [opts, opens, closes, txns, prices]; opens and closes are sequences of <<date, account>> in the order of the text
BeanCcy(c) == SUpper(SReplace(c, " ", ""))
ExactOk(v) == RIsDecimal(v, RDecNeed(v))
BeanFaults(b, g, full) ==
  LET ks == KeySeq(b)
      acct == [a \in AcctsOf(b) |-> STitle(a)]
      names == {acct[a] : a \in DOMAIN acct}
      dates(n) == {KDate(k) : k \in {x \in DOMAIN b.post : acct[KAcct(x)] = n}}
      bal(n) == LET q == SelectSeq(ks, LAMBDA k : acct[KAcct(k)] = n)
                    t == SumBy([x \in 1..Len(q) |-> <<BeanCcy(KCcy(q[x])), b.post[q[x]].v>>])
                IN \A c \in DOMAIN t : t[c] = RZero
      opened == {g.opens[x][2] : x \in 1..Len(g.opens)}
      closed == {g.closes[x][2] : x \in 1..Len(g.closes)}
      rows == PlainRows(b)
      amt(got, v) == IF ExactOk(v) THEN got = v ELSE TRUE
      post(y, z) == y.a = acct[z.a] /\ y.c = BeanCcy(z.c) /\ amt(y.v, z.v) /\ y.n \in z.n
      txn(x, z) == x.d = DateText(z.d) /\ x.p = z.p /\ x.n \in z.t /\ SameList(post, x.ps, z.ps)
      prs == FlattenSeq(LET q == SetToSeq(DOMAIN b.price) IN [x \in 1..Len(q) |-> [y \in 1..Len(b.price[q[x]]) |->
                 <<DateText(b.price[q[x]][y][1]), BeanCcy(q[x][1]), b.price[q[x]][y][2], BeanCcy(q[x][2])>>]])
      exact == \A x \in 1..Len(prs) : ExactOk(prs[x][3])
  IN (IF opened # names \/ Len(g.opens) # Cardinality(opened) THEN {"opened-accounts"} ELSE {})
     \cup (IF \E x \in 1..Len(g.opens) : g.opens[x][2] \in names /\ \E d \in dates(g.opens[x][2]) : SLt(DateText(d), g.opens[x][1]) THEN {"opened-late"} ELSE {})
     \cup (IF Len(g.closes) # Cardinality(closed) \/ ~(closed \subseteq names) THEN {"closed-accounts"} ELSE {})
     \cup (IF \E x \in 1..Len(g.closes) : g.closes[x][2] \in names /\ \E d \in dates(g.closes[x][2]) : ~SLt(DateText(d), g.closes[x][1]) THEN {"closed-early"} ELSE {})
     \cup (IF \E n \in closed \cap names : ~bal(n) THEN {"closed-with-balance"} ELSE {})
     \cup (IF \E n \in names \ closed : bal(n) THEN {"not-closed"} ELSE {})
     \cup (IF ~SameList(txn, g.txns, rows) THEN {"beancount-postings"} ELSE {})
     \cup (IF full /\ exact /\ ~SameBag(g.prices, prs) THEN {"beancount-prices"} ELSE {})
===============================================================================
