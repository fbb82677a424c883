package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	. "verifharness/vh"
)

var opt = BookOpt{Odd: true, Wide: false, Prices: 30}

// regular expressions with their replacements
func view(chk ...string) M {
	l := L{}
	for _, c := range chk {
		l = append(l, c)
	}
	return M{"op": "view", "chk": l}
}

func focusOp(r *rand.Rand, n Names, focus string) M {
	switch focus {
	case "map":
		return RandMap(r)
	case "move":
		return RandMove(r)
	case "depreciate":
		return RandDepr(r)
	case "window":
		return RandWindow(r, n)
	case "combine":
		return RandCombine(r)
	case "mapccy":
		return RandMapCcy(r)
	case "convert":
		return RandConvert(r, n)
	}
	return RandOp(r, n)
}

func scen(mode string, seed int64, k int, ev ...M) Scenario {
	return Scenario{ID: fmt.Sprintf("%s-%d-%d", mode, seed, k), Ev: ev}
}

// genOps: random operation sequences; every property of the book is compared
// at the end and, sometimes, on the way.
func genOps(seed int64, tier string, n int) []Scenario {
	return genOps1("ops")(seed, tier, n)
}

// chkFor: what a check of one operation compares.
func chkFor(focus string) M {
	switch focus {
	case "ops":
		return view("balanced")
	case "window":
		return view("amounts", "notes", "balances")
	}
	return view("amounts", "notes")
}

// genOps1: as genOps, with one kind of operation favoured.  Conversion needs
// unambiguous prices, so books have at most one price per pair and day.
func genOps1(focus string) Gen {
	return func(seed int64, tier string, n int) []Scenario {
		var out []Scenario
		for k := 0; k < n; k++ {
			r := Rng(seed, fmt.Sprintf("%s/%d", focus, k))
			o := opt
			o.OneDay = true
			o.Wide = Chance(r, 30)
			o.Odd = Chance(r, 35)
			nm := PickNames(r, o)
			o.Base = nm.Ccys[0]
			if focus == "convert" || focus == "mapccy" {
				o.Prices = 90
			}
			if Chance(r, 8) {
				o.Txns = 25
			}
			ev := []M{RandBuild(r, nm, o)}
			steps := 1 + r.Intn(4)
			merged := false
			for i := 0; i < steps; i++ {
				var e M
				if focus != "ops" && (i == steps-1 || Chance(r, 50)) {
					e = focusOp(r, nm, focus)
				} else {
					e = RandOp(r, nm)
				}
				if op := e["op"]; op == "convert" && merged {
					continue // price lists may have become ambiguous
				} else if op == "mapccy" {
					merged = true
				}
				ev = append(ev, e)
				if Chance(r, 40) {
					ev = append(ev, chkFor(focus))
				}
			}
			ev = append(ev, chkFor(focus))
			if focus == "mapccy" {
				ev = append(ev, M{"op": "prices"}, M{"op": "dec"})
			}
			out = append(out, scen(focus, seed, k, ev...))
		}
		return out
	}
}

// genCanon: canonical form and running balances, with operations that merge,
// cancel and re-date postings, including the empty book.
func genCanon(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("canon/%d", k))
		o := opt
		o.OneDay = true
		o.Wide = Chance(r, 40)
		o.Txns = []int{3, 8, 20}[r.Intn(3)]
		nm := PickNames(r, o)
		ev := []M{RandBuild(r, nm, o)}
		all := view("canonical", "balances", "amounts", "notes")
		if Chance(r, 60) {
			ev = append(ev, all)
		}
		merged := false
		for i := r.Intn(5); i > 0; i-- {
			e := RandOp(r, nm)
			if e["op"] == "convert" && merged {
				continue
			}
			if e["op"] == "mapccy" {
				merged = true
			}
			ev = append(ev, e)
			if Chance(r, 60) {
				ev = append(ev, view("canonical", "balances", "amounts", "notes"))
			}
		}
		ev = append(ev, view("canonical", "balances", "amounts", "notes"))
		out = append(out, scen("canon", seed, k, ev...))
	}
	return out
}

// genPrice: price tables in any order, with several prices per pair and day.
func genPrice(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("price/%d", k))
		o := opt
		o.Prices = 100
		o.Wide = Chance(r, 30)
		o.Txns = 1
		nm := PickNames(r, o)
		e := RandBuild(r, nm, o)
		ps := List(e["prices"])
		for i := r.Intn(4); i > 0; i-- {
			ps = append(ps, RandPrices(r, nm, o)...)
		}
		if len(ps) > 0 && Chance(r, 3) {
			ps[r.Intn(len(ps))].(M)["v"] = "0/1"
		}
		e["prices"] = ps
		ev := []M{e}
		var dates []int
		var us []string
		for _, p := range ps {
			dates = append(dates, Int(p.(M)["d"]))
			us = append(us, Str(p.(M)["u"]), Str(p.(M)["c"]))
		}
		if len(dates) == 0 {
			dates = nm.Dates
		}
		us = append(us, "NONE")
		for i := 6 + r.Intn(10); i > 0; i-- {
			d := Near(r, dates[r.Intn(len(dates))])
			if Chance(r, 40) {
				d = Date(r, []int{d / 10000, d/10000 + 1})
			}
			var u, c string
			if len(ps) > 0 && Chance(r, 80) {
				p := ps[r.Intn(len(ps))].(M)
				u, c = Str(p["u"]), Str(p["c"])
				if Chance(r, 35) {
					u, c = c, u
				}
			} else {
				u, c = us[r.Intn(len(us))], us[r.Intn(len(us))]
			}
			ev = append(ev, M{"op": "price", "d": d, "u": u, "c": c})
		}
		if len(ps) > 0 {
			p := ps[r.Intn(len(ps))].(M)
			var ds []int
			for i := 4 + r.Intn(5); i > 0; i-- {
				d := Near(r, dates[r.Intn(len(dates))])
				if Chance(r, 40) {
					d = Date(r, []int{d / 10000})
				}
				ds = append(ds, d)
			}
			sortInts(ds)
			l := L{}
			for _, d := range ds {
				l = append(l, d)
			}
			ev = append(ev, M{"op": "iter", "u": Str(p["u"]), "c": Str(p["c"]), "ds": l})
		}
		ev = append(ev, M{"op": "prices"})
		out = append(out, scen("price", seed, k, ev...))
	}
	return out
}

func sortInts(x []int) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func on(e M) M { e["on"] = "dup"; return e }

// genHist: histories of reads and operations over a book and its duplicate.
func genHist(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("hist/%d", k))
		o := opt
		o.OneDay = true
		o.Prices = 70
		o.Txns = []int{3, 6, 12}[r.Intn(3)]
		nm := PickNames(r, o)
		ev := []M{RandBuild(r, nm, o)}
		memo := func(e M) M { e["memo"] = 1; return e }
		full := func() M { return memo(view()) }
		query := func() M {
			switch r.Intn(8) {
			case 0:
				return full()
			case 1:
				return memo(M{"op": "prices"})
			case 2:
				return memo(M{"op": "dec"})
			case 3:
				return memo(M{"op": "accts", "re": Pick(r, "", "Asset", "^Exp"), "all": Chance(r, 50)})
			case 4:
				return memo(M{"op": "register", "re": Pick(r, "Asset", ".", "^Exp"), "base": nm.Ccys[0], "split": Chance(r, 50), "chk": L{}})
			case 5:
				return memo(M{"op": "price", "d": nm.Dates[0], "u": nm.Ccys[r.Intn(len(nm.Ccys))], "c": nm.Ccys[0]})
			default:
				return memo(M{"op": "accumulate", "base": nm.Ccys[0], "div": ":", "credit": Pick(r, "", "^Income", "Asset"), "hidden": "", "chk": L{}})
			}
		}
		duped := false
		side := func(e M) M {
			if duped && Chance(r, 50) {
				return on(e)
			}
			return e
		}
		mapped := false
		for i := 3 + r.Intn(7); i > 0; i-- {
			if Chance(r, 20) || (!duped && Chance(r, 30)) {
				ev = append(ev, M{"op": "duplicate"})
				duped = true
				continue
			}
			if Chance(r, 45) {
				ev = append(ev, side(query()))
			} else {
				e := RandOp(r, nm)
				if e["op"] == "mapccy" {
					mapped = true
				}
				if e["op"] == "convert" && mapped {
					continue
				}
				ev = append(ev, side(e))
				if Chance(r, 60) {
					ev = append(ev, full())
					if duped {
						ev = append(ev, on(full()))
					}
				}
			}
		}
		for _, q := range []M{full(), memo(M{"op": "prices"}), memo(M{"op": "dec"}), query(), query()} {
			ev = append(ev, Clone(q))
			if duped {
				ev = append(ev, on(Clone(q)))
			}
		}
		ev = append(ev, M{"op": "again"})
		out = append(out, scen("hist", seed, k, ev...))
	}
	return out
}

// genMerge: small amounts with many notes that cancel when currencies, accounts or dates become the
// same, read or not in between.
func genMerge(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("merge/%d", k))
		txns := L{}
		for t := 0; t < 2+r.Intn(5); t++ {
			ps := L{}
			for j := 0; j < 1+r.Intn(4); j++ {
				v, c := Pick(r, "1/1", "2/1", "-1/1", "-2/1"), Pick(r, "c", "d")
				neg := map[string]string{"1/1": "-1/1", "2/1": "-2/1", "-1/1": "1/1", "-2/1": "2/1"}[v]
				ps = append(ps, M{"a": Pick(r, "A:x", "A:y", "B"), "c": c, "v": v, "n": fmt.Sprintf("n%d", r.Intn(9))},
					M{"a": Pick(r, "A:x", "A:y", "B"), "c": c, "v": neg, "n": Pick(r, "", "m")})
			}
			txns = append(txns, M{"d": 20200100 + 1 + r.Intn(3), "p": Pick(r, "p", "q"), "n": fmt.Sprintf("t%d", t), "ps": ps})
		}
		ev := []M{{"op": "build", "txns": txns, "prices": L{}}}
		full := func() M { e := view(); e["memo"] = 1; return e }
		for i := 2 + r.Intn(3); i > 0; i-- {
			ev = append(ev, []M{{"op": "mapccy", "re": "^d$", "rep": "c"}, {"op": "mapccy", "re": "c", "rep": "d"}, {"op": "convert", "base": "c"},
				{"op": "combine", "by": "monthly"}, {"op": "combine", "by": "monthly"}, {"op": "map", "re": "A:.*", "rep": "A"}, {"op": "map", "re": "x|y", "rep": "z"},
				{"op": "move", "re": "x", "rep": "y", "f": "1"}}[r.Intn(8)])
			if Chance(r, 50) {
				ev = append(ev, full())
			}
		}
		out = append(out, scen("merge", seed, k, append(ev, full(), M{"op": "again"})...))
	}
	return out
}

// genAccts: account listings after operations.
func genAccts(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("accts/%d", k))
		o := opt
		o.OneDay = true
		nm := PickNames(r, o)
		o.Txns = []int{2, 5, 9}[r.Intn(3)]
		ev := []M{RandBuild(r, nm, o)}
		for i := r.Intn(3); i >= 0; i-- {
			for _, all := range []bool{true, false} {
				ev = append(ev, M{"op": "accts", "re": Pick(r, "", "", "^Asset", "Exp", "Bank$", "Nope", "(?i)asset"), "all": all})
			}
			ev = append(ev, RandOp(r, nm))
			if ev[len(ev)-1]["op"] == "convert" && i < 1 {
				ev = ev[:len(ev)-1]
			}
			ev = append(ev, M{"op": "accts", "re": "", "all": Chance(r, 50)})
		}
		// settle everything: accounts whose balances all return to zero
		if Chance(r, 40) {
			ev = append(ev, M{"op": "move", "re": "^(Asset.*)$", "rep": "Pool", "f": "1"}, M{"op": "accts", "re": "", "all": false})
		}
		out = append(out, scen("accts", seed, k, ev...))
	}
	return out
}

// genDec: display decimals of every currency.
func genDec(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("dec/%d", k))
		o := opt
		o.Dec = true
		nm := PickNames(r, o)
		out = append(out, scen("dec", seed, k, RandBuild(r, nm, o), M{"op": "dec"}))
	}
	return out
}

// exchange: a transaction that trades two currencies on one account.
func exchange(r *rand.Rand, n Names, o BookOpt) M {
	t := RandTxn(r, n, o)
	ps := List(t["ps"])
	a := one(r, n.Accts)
	b := one(r, n.Accts)
	c1, c2 := one(r, n.Ccys), one(r, n.Ccys)
	x, y := DecAmt(r), DecAmt(r)
	neg := func(v *big.Rat) *big.Rat { return new(big.Rat).Neg(v) }
	if Chance(r, 70) {
		ps = L{}
	}
	if Chance(r, 80) && x.Sign() == y.Sign() {
		y = neg(y)
	}
	other := one(r, n.Accts)
	ps = append(ps, M{"a": a, "c": c1, "v": x.String(), "n": ""}, M{"a": b, "c": c1, "v": neg(x).String(), "n": "n1"},
		M{"a": a, "c": c2, "v": y.String(), "n": ""}, M{"a": other, "c": c2, "v": neg(y).String(), "n": ""})
	t["ps"] = ps
	return t
}

func one(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// genRegister: registers over books with counter-accounts on both sides and
// several currencies, trades and prices.
func genRegister(chk ...interface{}) Gen {
	return func(seed int64, tier string, n int) []Scenario { return genReg(seed, n, L(chk)) }
}
func genReg(seed int64, n int, chk L) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("register/%d", k))
		o := opt
		o.OneDay = true
		o.Odd = Chance(r, 25)
		o.Prices = 60
		o.Txns = []int{2, 4, 8}[r.Intn(3)]
		o.Wide = Chance(r, 15)
		nm := PickNames(r, o)
		o.Base = nm.Ccys[0]
		e := RandBuild(r, nm, o)
		ts := List(e["txns"])
		for i := r.Intn(4); i > 0; i-- {
			ts = append(ts, exchange(r, nm, o))
		}
		e["txns"] = ts
		ev := []M{e}
		if Chance(r, 30) {
			ev = append(ev, RandOp(r, nm))
			if ev[1]["op"] == "mapccy" {
				ev = ev[:1]
			}
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			base := nm.Ccys[0]
			if Chance(r, 25) {
				base = one(r, append(append([]string{}, nm.Ccys...), "XAU", "NONE"))
			}
			ev = append(ev, M{"op": "register", "re": Pick(r, ".", ".", "Asset", "^Exp", "Bank$", "^Asset:Bank$", "Nope", ""), "base": base, "split": Chance(r, 50), "chk": chk})
		}
		out = append(out, scen("register", seed, k, ev...))
	}
	return out
}

var summaryAccts = []string{"Asset:Bank", "Asset:Bank:Sub", "Asset:Bank:Sub:A", "Asset:Bank:Sub2", "Asset:Bank1", "Asset", "Asset:Cash",
	"Expense:Food", "Expense:Food:Out", "Expense:Food-1", "Expense:Food:In", "Expense", "Income:Job", "Income:Job:Bonus", "Equity", "Equity2:X:Y", "Equity2:X:Z",
	"Liability:Card:A", "Liability:Card:B", "B-1", "B", "B:1", "B:1:2"}

// genSummary: summaries of books over account trees, after operations.
func genSummary(chk ...interface{}) Gen {
	return func(seed int64, tier string, n int) []Scenario { return genSum(seed, n, L(chk)) }
}
func genSum(seed int64, n int, chk L) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("summary/%d", k))
		o := opt
		o.OneDay = true
		o.Odd = false
		o.Prices = 70
		o.Txns = []int{1, 3, 6, 10}[r.Intn(4)]
		nm := PickNames(r, o)
		o.Base = nm.Ccys[0]
		nm.Accts = nil
		div := Pick(r, ":", ":", ":", ".", "/", "--")
		for i := 2 + r.Intn(8); i > 0; i-- {
			nm.Accts = append(nm.Accts, strings.ReplaceAll(one(r, summaryAccts), ":", div))
		}
		ev := []M{RandBuild(r, nm, o)}
		for i := r.Intn(3); i > 0; i-- {
			x := RandOp(r, nm)
			if op := x["op"]; op == "mapccy" || op == "map" {
				continue
			}
			ev = append(ev, x)
		}
		if Chance(r, 70) {
			ev = append(ev, M{"op": "combine", "by": Pick(r, "monthly", "quarterly", "yearly", "today")})
		}
		base := nm.Ccys[0]
		if Chance(r, 15) {
			base = one(r, append(append([]string{}, nm.Ccys...), "XAU", "NONE"))
		}
		hidden := ""
		if Chance(r, 30) {
			hidden = one(r, nm.Accts)
		} else if Chance(r, 10) {
			hidden = Pick(r, "Asset", "Asset:Bank", "Nope")
		}
		ev = append(ev, M{"op": "accumulate", "base": base, "div": div, "credit": Pick(r, "", "^Income", "^(Income|Liability|Equity)", "Food", "^Asset$"),
			"hidden": hidden, "chk": chk})
		if Chance(r, 20) {
			ev = append(ev, Clone(ev[len(ev)-1]))
		}
		out = append(out, scen("summary", seed, k, ev...))
	}
	return out
}
