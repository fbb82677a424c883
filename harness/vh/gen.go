package vh

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
)

// ---- random ledger contents (independent of the program under test)

var Accts = []string{"Asset:Bank", "Asset:Bank:Sub", "Asset:Bank1", "Asset", "Asset:Cash",
	"Expense:Food", "Expense:Food:Out", "Expense:Rent", "Income:Job", "Equity", "Liability:Card",
	"asset:bank", "Expense:Food'n", "Z"}
var OddAccts = []string{"Asset:Ünï", "A+B", "Asset:(x)", "a.b", "Expense Food", "X:Y:Z:W:V", "Asset::Bank", ""}
var Ccys = []string{"£", "$", "USD", "EUR", "GBP", "€", "usd"}
var OddCcys = []string{"ABC DEF", "U2", "A-B", ""}
var Payees = []string{"Shop", "Shop", "Shop", "Zed", "shop", "Aldi", "Aldi Süd", "Shop (2)", "", "Rent; May", "B&B"}
var Notes = []string{"", "", "", "n1", "n2", "note three"}

var YearPool = []int{2019, 2020, 2021, 2020, 2000, 1900, 1999, 2100, 4, 1, 800, 8999}

func DaysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// Date: biased to period boundaries and leap days.
func Date(r *rand.Rand, years []int) int {
	y := years[r.Intn(len(years))]
	m := 1 + r.Intn(12)
	if Chance(r, 30) {
		m = []int{1, 2, 3, 12}[r.Intn(4)]
	}
	n := DaysIn(y, m)
	d := 1 + r.Intn(n)
	if Chance(r, 40) {
		d = []int{1, n, n - 1, 2}[r.Intn(4)]
	}
	return y*10000 + m*100 + d
}

// a pool of dates close to each other, so that ties and windows matter
func DatePool(r *rand.Rand, wide bool) []int {
	ys := []int{2019, 2020, 2021}
	if wide {
		ys = YearPool
	}
	n := 2 + r.Intn(5)
	out := make([]int, n)
	for i := range out {
		if i > 0 && Chance(r, 40) {
			p := out[r.Intn(i)]
			y, m := p/10000, (p/100)%100
			out[i] = y*10000 + m*100 + 1 + r.Intn(DaysIn(y, m))
		} else {
			out[i] = Date(r, ys)
		}
	}
	return out
}

// Amt: exact amounts, mostly ordinary, sometimes extreme.
func Amt(r *rand.Rand) *big.Rat {
	switch k := r.Intn(20); {
	case k < 6:
		return big.NewRat(int64(r.Intn(41)-20), 1)
	case k < 13:
		return big.NewRat(int64(r.Intn(2000001)-1000000), 100)
	case k < 14:
		return big.NewRat(0, 1)
	case k < 15:
		return big.NewRat(int64(r.Intn(2001)-1000), 3)
	case k < 16:
		return big.NewRat(int64(r.Intn(2001)-1000), 7919)
	case k < 17:
		x, _ := new(big.Rat).SetString(fmt.Sprintf("%d%018d.%02d", r.Intn(90)-45, r.Int63n(1000000000000000000), r.Intn(100)))
		return x
	case k < 18:
		return big.NewRat(int64(r.Intn(200001)-100000), 100000)
	case k < 19:
		return big.NewRat(int64(r.Intn(3)-1), 1)
	default:
		return big.NewRat(r.Int63()-r.Int63(), 1000)
	}
}

// DecAmt: amounts that a ledger text can express.
func DecAmt(r *rand.Rand) *big.Rat {
	if Chance(r, 4) { // many digits before or after the point
		digits := func(n int) string {
			s := ""
			for ; n > 0; n-- {
				s += fmt.Sprint(r.Intn(10))
			}
			return s
		}
		x, _ := new(big.Rat).SetString("0" + digits([]int{0, 1, 5, 30}[r.Intn(4)]) + ".0" + digits([]int{0, 2, 17, 25, 40}[r.Intn(5)]))
		if Chance(r, 50) {
			x.Neg(x)
		}
		return x
	}
	switch k := r.Intn(20); {
	case k < 6:
		return big.NewRat(int64(r.Intn(41)-20), 1)
	case k < 14:
		return big.NewRat(int64(r.Intn(2000001)-1000000), 100)
	case k < 15:
		return big.NewRat(0, 1)
	case k < 16:
		return big.NewRat(int64(r.Intn(2001)-1000), 8)
	case k < 17:
		x, _ := new(big.Rat).SetString(fmt.Sprintf("%d%012d.%02d", r.Intn(90)-45, r.Int63n(1000000000000), r.Intn(100)))
		return x
	case k < 18:
		return big.NewRat(int64(r.Intn(200001)-100000), 100000)
	case k < 19:
		return big.NewRat(int64(r.Intn(3)-1), 1)
	default:
		return big.NewRat(int64(r.Intn(20001)-10000), 1000)
	}
}

type BookOpt struct {
	Odd    bool // unusual account and currency names
	Wide   bool // dates from all centuries
	Dec    bool // amounts expressible as decimals
	Prices int  // percent chance of having prices
	Txns   int  // maximum number of transactions
	OneDay bool // at most one price per pair and day
	Base   string
}

func Subset(r *rand.Rand, xs []string, n int) []string {
	p := r.Perm(len(xs))
	var out []string
	for _, i := range p[:n] {
		out = append(out, xs[i])
	}
	return out
}

type Names struct {
	Accts, Ccys, Payees []string
	Dates               []int
}

func PickNames(r *rand.Rand, o BookOpt) Names {
	n := Names{
		Accts:  Subset(r, Accts, 3+r.Intn(5)),
		Ccys:   Subset(r, Ccys, 1+r.Intn(3)),
		Payees: Subset(r, Payees, 2+r.Intn(4)),
		Dates:  DatePool(r, o.Wide),
	}
	if o.Odd {
		n.Accts = append(n.Accts, Subset(r, OddAccts, 2)...)
		n.Ccys = append(n.Ccys, Subset(r, OddCcys, 1)...)
	}
	if Chance(r, 7) { // names that read alike once they are put together
		sep := ""
		if o.Odd {
			sep = []string{"", ":", "|", " ", ",", "/", "\t"}[r.Intn(7)]
		}
		n.Accts = append([]string{"A", "A" + sep + "B", "B", "B" + sep + "A"}, n.Accts[:1]...)
		n.Ccys = []string{"C", "B" + sep + "C"}
		n.Payees = []string{"P", "P" + sep + "A"}
	}
	return n
}

func one(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// RandTxn: a balanced transaction over the given names.
func RandTxn(r *rand.Rand, n Names, o BookOpt) M {
	amt := Amt
	if o.Dec {
		amt = DecAmt
	}
	ps := L{}
	for k := 1 + r.Intn(2)*r.Intn(2); k > 0; k-- {
		ccy := one(r, n.Ccys)
		sum := new(big.Rat)
		legs := 1 + r.Intn(3)
		for j := 0; j < legs; j++ {
			v := amt(r)
			sum.Add(sum, v)
			ps = append(ps, M{"a": one(r, n.Accts), "c": ccy, "v": v.String(), "n": one(r, Notes)})
		}
		ps = append(ps, M{"a": one(r, n.Accts), "c": ccy, "v": sum.Neg(sum).String(), "n": one(r, Notes)})
	}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return M{"d": n.Dates[r.Intn(len(n.Dates))], "p": one(r, n.Payees), "n": one(r, Notes), "ps": ps}
}

func RandPrices(r *rand.Rand, n Names, o BookOpt) L {
	out := L{}
	seen := map[string]bool{}
	ccys := append([]string{}, n.Ccys...)
	ccys = append(ccys, "XAU")
	for k := r.Intn(8); k >= 0; k-- {
		u, c := one(r, ccys), one(r, ccys)
		if o.Base != "" && Chance(r, 70) {
			if Chance(r, 75) {
				c = o.Base
			} else {
				u = o.Base
			}
		}
		if u == c {
			continue
		}
		d := n.Dates[r.Intn(len(n.Dates))]
		if Chance(r, 50) {
			d = Date(r, []int{d / 10000})
		}
		key := fmt.Sprintf("%s|%s|%d", u, c, d)
		if o.OneDay && seen[key] {
			continue
		}
		seen[key] = true
		v := big.NewRat(int64(1+r.Intn(20000)), []int64{1, 10, 100, 1000, 10000, 8}[r.Intn(6)])
		if Chance(r, 10) && !o.Dec {
			v = big.NewRat(int64(1+r.Intn(50)), int64(1+r.Intn(30)))
		}
		out = append(out, M{"d": d, "u": u, "c": c, "v": v.String()})
	}
	return out
}

// RandBuild: the event that creates a random book.
func RandBuild(r *rand.Rand, n Names, o BookOpt) M {
	max := o.Txns
	if max == 0 {
		max = 7
	}
	txns := L{}
	for k := r.Intn(max + 1); k > 0; k-- {
		txns = append(txns, RandTxn(r, n, o))
	}
	prices := L{}
	if Chance(r, o.Prices) {
		prices = RandPrices(r, n, o)
	}
	return M{"op": "build", "txns": txns, "prices": prices}
}

func SortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
