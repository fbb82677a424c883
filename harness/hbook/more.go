package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"

	"github.com/mescanne/goledger/book"
	. "verifharness/vh"
)

func register(b *book.Book, e M) M {
	re := regexp.MustCompile(Str(e["re"]))
	t := M{}
	rep := b.ExtractRegister(Str(e["base"]), re, Bool(e["split"]))
	_ = t
	out := L{}
	for _, x := range rep {
		out = append(out, M{"d": int(x.Date), "p": x.Payee, "a": x.Account, "ca": x.CounterAccount, "v": x.Amount.String(),
			"c": x.CCY, "b": x.Balance.String(), "n": x.Note, "t": x.TNote, "bc": x.BaseCCY, "bv": x.BaseAmount.String(),
			"bk": x.BaseSource.String(), "bb": x.BaseBalance.String()})
	}
	return M{"reg": out}
}

func accumulate(b *book.Book, e M) M {
	var credit *regexp.Regexp
	if c := Str(e["credit"]); c != "" {
		credit = regexp.MustCompile(c)
	}
	out := L{}
	for _, t := range b.Accumulate(Str(e["base"]), Str(e["div"]), credit, Str(e["hidden"])) {
		ps := L{}
		for _, p := range t {
			ps = append(ps, M{"a": p.GetAccount(), "c": p.GetCCY(), "v": p.GetAmount().String(), "l": p.GetAccountLevel(), "term": p.GetAccountTerm()})
		}
		out = append(out, M{"d": int(t.GetDate()), "p": t.GetPayee(), "ps": ps})
	}
	return M{"acc": out}
}

var isRead = map[string]bool{"view": true, "price": true, "prices": true, "iter": true, "dec": true, "accts": true, "register": true, "accumulate": true}

// again executes the operations of a history on fresh books without the reads
// in between, then the reads that followed the last operation.
func again(ev []M) M {
	w := newWorld()
	last := map[bool]int{}
	for i, e := range ev {
		if !isRead[Str(e["op"])] {
			last[e["on"] != nil] = i
			if Str(e["op"]) == "duplicate" {
				last[true] = i
			}
		}
	}
	reads := L{}
	for i, e := range ev {
		if isRead[Str(e["op"])] {
			continue
		}
		x := Clone(e)
		delete(x, "o")
		w.step(x)
		_ = i
	}
	done := map[string]bool{}
	for i, e := range ev {
		if !isRead[Str(e["op"])] || i < last[e["on"] != nil] {
			continue
		}
		x := Clone(e)
		delete(x, "o")
		delete(x, "match")
		delete(x, "creditm")
		key := Key(x)
		if done[key] {
			continue
		}
		done[key] = true
		x["o"] = w.step(x)
		reads = append(reads, x)
	}
	return M{"reads": reads}
}

// dedup removes from the book what the reference book has; both are then shown.
func dedup(b *book.Book, e M) M {
	ref := Build(e["ref"].(M))
	before := View(ref.Transactions())
	b.RemoveDuplicatesOf(ref)
	return M{"refb": before, "refa": View(ref.Transactions())}
}

// reclassify gives two-posting transactions the counter-account of the
// reference book; done again on duplicates, the choices must be the same.
func reclassify(b *book.Book, e M) M {
	dist := map[[2]string]float64{}
	sim, _ := e["sim"].(M)
	for x, t := range sim {
		for y, v := range t.(M) {
			f, _ := rat(v).Float64()
			dist[[2]string{x, y}] = f
		}
	}
	fn := func(x, y string) float64 { return dist[[2]string{x, y}] }
	same := true
	ref := Build(e["ref"].(M))
	before := View(ref.Transactions())
	var others []*book.Book
	for i := 0; i < 3; i++ {
		others = append(others, b.Duplicate())
	}
	acct := Str(e["acct"])
	b.ReclassifyByAccount(ref, acct, fn)
	want := Key(M{"v": View(b.Transactions())})
	for _, o := range others {
		o.ReclassifyByAccount(Build(e["ref"].(M)), acct, fn)
		if Key(M{"v": View(o.Transactions())}) != want {
			same = false
		}
	}
	return M{"same": same, "view": View(b.Transactions()), "refb": before, "refa": View(ref.Transactions())}
}

// books of a few payees and dates, so that the same pairs occur in both
func genPair(r *rand.Rand) (Names, BookOpt) {
	o := opt
	o.OneDay = true
	o.Odd = Chance(r, 10)
	o.Prices = 0
	o.Txns = []int{3, 8, 15}[r.Intn(3)]
	nm := PickNames(r, o)
	nm.Dates = nm.Dates[:1+r.Intn(len(nm.Dates))]
	return nm, o
}

func genDedup(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("dedup/%d", k))
		nm, o := genPair(r)
		ev := []M{RandBuild(r, nm, o)}
		if Chance(r, 20) {
			ev = append(ev, RandOp(r, nm))
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			ref := RandBuild(r, nm, o)
			if Chance(r, 30) { // the reference lies before or after
				d := nm.Dates[r.Intn(len(nm.Dates))]
				for _, t := range List(ref["txns"]) {
					if x := t.(M); Chance(r, 80) {
						x["d"] = Near(r, d)
					}
				}
			}
			ev = append(ev, M{"op": "dedup", "ref": ref}, view("amounts", "notes"))
		}
		out = append(out, scen("dedup", seed, k, ev...))
	}
	return out
}

func simple(r *rand.Rand, nm Names, acct string) M {
	v := DecAmt(r)
	c := one(r, nm.Ccys)
	other := one(r, nm.Accts)
	t := M{"d": nm.Dates[r.Intn(len(nm.Dates))], "p": one(r, nm.Payees), "n": one(r, Notes),
		"ps": L{M{"a": acct, "c": c, "v": v.String(), "n": one(r, Notes)}, M{"a": other, "c": c, "v": new(big.Rat).Neg(v).String(), "n": one(r, Notes)}}}
	if Chance(r, 20) {
		c2 := one(r, nm.Ccys)
		x := one(r, nm.Accts)
		t["ps"] = append(List(t["ps"]), M{"a": x, "c": c2, "v": v.String(), "n": ""}, M{"a": one(r, nm.Accts), "c": c2, "v": new(big.Rat).Neg(v).String(), "n": ""})
	}
	return t
}

func genReclass(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("reclass/%d", k))
		nm, o := genPair(r)
		nm.Payees = append(nm.Payees, Subset(r, []string{"Aldi", "Aldi Store", "ALDI", "Lidl", "Rent", "Rent May", "x"}, 3)...)
		acct := one(r, nm.Accts)
		mk := func() M {
			b := RandBuild(r, nm, o)
			ts := List(b["txns"])
			for i := r.Intn(12); i > 0; i-- {
				a := acct
				if Chance(r, 15) {
					a = one(r, nm.Accts)
				}
				ts = append(ts, simple(r, nm, a))
			}
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
			b["txns"] = ts
			return b
		}
		b, ref := mk(), mk()
		// repeated payees of a day are numbered: the table covers those names too
		names := map[string]bool{}
		var bks = [2]*book.Book{Build(b), Build(ref)}
		for _, x := range bks {
			for _, t := range x.Transactions() {
				names[t.GetPayee()] = true
			}
		}
		sim := M{}
		vals := []string{"", "", "1/2", "1/2", "3/4", "3/4", "1/1", "4503599627370497/9007199254740992"}
		for _, x := range SortedKeys(names) {
			t := M{}
			for _, y := range SortedKeys(names) {
				v := vals[r.Intn(len(vals))]
				if x == y && Chance(r, 70) {
					v = "1/1"
				}
				if v != "" {
					t[y] = v
				}
			}
			sim[x] = t
		}
		out = append(out, scen("reclass", seed, k, b, M{"op": "reclass", "ref": ref, "acct": acct, "sim": sim}, view("amounts", "notes")))
	}
	return out
}
