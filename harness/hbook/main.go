// hbook drives the in-process book API and the operation strings of the real
// program, records what it shows, and generates random scenarios for that.
package main

import (
	"math/big"
	"os"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	. "verifharness/vh"
)

// world is the state of one scenario: the program's book, its duplicate, and
// the closed universe of names the tables of regular expressions range over.
type world struct {
	b, dup *book.Book
	accts  map[string]bool
	ccys   map[string]bool
	app    *app.App
}

func main() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr, null = null, os.Stderr // the program warns on stderr; keep ours
		stderr = null
	}
	Main(map[string]Gen{
		"ops": genOps, "map": genOps1("map"), "move": genOps1("move"), "depreciate": genOps1("depreciate"),
		"window": genOps1("window"), "combine": genOps1("combine"), "canon": genCanon, "mapccy": genOps1("mapccy"),
		"price": genPrice, "convert": genOps1("convert"), "hist": genHist, "merge": genMerge, "accts": genAccts,
		"opstr": genOpStr, "dedup": genDedup, "reclass": genReclass, "decimals": genDec,
		"register": genRegister("entries"), "regbase": genRegister("base"), "summary": genSummary("values"), "tree": genSummary("tree"),
	}, exec)
}

var stderr *os.File

func rat(v interface{}) *big.Rat {
	r, ok := new(big.Rat).SetString(Str(v))
	if !ok {
		panic("bad rational in scenario")
	}
	return r
}

// Build feeds a structured book to the program's own builder.
func Build(e M) *book.Book {
	bb := book.NewBookBuilder()
	for _, t := range List(e["txns"]) {
		x := t.(M)
		bb.NewTransaction(book.Date(Int(x["d"])), Str(x["p"]), Str(x["n"]))
		for _, p := range List(x["ps"]) {
			q := p.(M)
			bb.AddPosting(Str(q["a"]), Str(q["c"]), rat(q["v"]), Str(q["n"]))
		}
	}
	for _, p := range List(e["prices"]) {
		q := p.(M)
		bb.AddPrice(book.Date(Int(q["d"])), Str(q["u"]), Str(q["c"]), rat(q["v"]))
	}
	return bb.Build()
}

func (w *world) names(e M) {
	for _, t := range List(e["txns"]) {
		for _, p := range List(t.(M)["ps"]) {
			w.accts[Str(p.(M)["a"])] = true
			w.ccys[Str(p.(M)["c"])] = true
		}
	}
	for _, p := range List(e["prices"]) {
		w.ccys[Str(p.(M)["u"])] = true
		w.ccys[Str(p.(M)["c"])] = true
	}
}

func result(err error) M {
	if err != nil {
		return M{"err": err.Error()}
	}
	return M{}
}

func newWorld() *world {
	return &world{accts: map[string]bool{}, ccys: map[string]bool{}, app: &app.App{Divider: ":", Lang: "en"}}
}

func exec(s *Scenario) {
	w := newWorld()
	for i := range s.Ev {
		e := s.Ev[i]
		if Str(e["op"]) == "again" {
			Guard(e, func() M { return again(s.Ev[:i]) })
			continue
		}
		Guard(e, func() M { return w.step(e) })
		if o, _ := e["o"].(M); o != nil && o["panic"] != nil {
			s.Ev = s.Ev[:i+1] // nothing after a crash is meaningful
			return
		}
	}
}

// OpString spells the operation as a user would.

func itoa(n int) string { return big.NewInt(int64(n)).String() }

// tables records what the operation's regular expression does to every name.
func (w *world) tables(e M) {
	if Str(e["op"]) == "accumulate" {
		t := M{}
		if c := Str(e["credit"]); c != "" {
			re := regexp.MustCompile(c)
			div := Str(e["div"])
			for a := range w.accts {
				ps := strings.Split(a, div)
				for i := range ps {
					x := strings.Join(ps[:i+1], div)
					if re.MatchString(x) {
						t[x] = true
					}
				}
			}
		}
		e["creditm"] = t
		return
	}
	re, err := regexp.Compile(Str(e["re"]))
	if err != nil {
		return
	}
	rep := Str(e["rep"])
	switch Str(e["op"]) {
	case "map":
		t := M{}
		for a := range w.accts {
			switch {
			case Str(e["alt"]) != "" && !re.MatchString(a):
				t[a] = Str(e["alt"])
			default:
				t[a] = re.ReplaceAllString(a, rep)
			}
		}
		e["ren"] = t
		for _, v := range t {
			w.accts[v.(string)] = true
		}
	case "move", "depreciate":
		t := M{}
		for a := range w.accts {
			if re.MatchString(a) {
				t[a] = re.ReplaceAllString(a, rep)
			}
		}
		e["tbl"] = t
		for _, v := range t {
			w.accts[v.(string)] = true
		}
	case "mapccy":
		t := M{}
		for c := range w.ccys {
			if re.MatchString(c) {
				t[c] = re.ReplaceAllString(c, rep)
			}
		}
		e["ren"] = t
		for _, v := range t {
			w.ccys[v.(string)] = true
		}
	case "accts", "register":
		t := M{}
		for a := range w.accts {
			if re.MatchString(a) {
				t[a] = true
			}
		}
		e["match"] = t
	}
}

func (w *world) step(e M) M {
	on := &w.b
	if e["on"] != nil {
		on = &w.dup
	}
	b := *on
	switch op := Str(e["op"]); op {
	case "build":
		w.names(e)
		w.b = Build(e)
		return M{}
	case "map", "move", "depreciate", "since", "asof", "combine", "mapccy":
		w.tables(e)
		e["today"] = Today()
		return result(w.app.BookOps(b, OpString(e)))
	case "convert":
		base := Str(e["base"])
		b.MapAmount(func(date book.Date, ccy string) (*big.Rat, string) {
			r, _ := b.GetPrice(date, ccy, base)
			return r, base
		})
		w.ccys[base] = true
		return M{}
	case "duplicate":
		w.dup = b.Duplicate()
		return M{}
	case "view":
		return M{"view": View(b.Transactions())}
	case "price":
		v, k := b.GetPrice(book.Date(Int(e["d"])), Str(e["u"]), Str(e["c"]))
		return M{"v": v.String(), "k": k.String()}
	case "prices":
		return Prices(b)
	case "iter": // forward iteration over one price list
		l := b.GetPriceList(Str(e["u"]), Str(e["c"]))
		if l == nil {
			return M{"q": L{}}
		}
		it := l.GetIterator()
		q := L{}
		for _, d := range List(e["ds"]) {
			v, k := it.GetPrice(book.Date(Int(d)))
			q = append(q, L{v.String(), k.String()})
		}
		return M{"q": q}
	case "dec":
		d := M{}
		for c, n := range b.GetCCYDecimals() {
			d[c] = n
		}
		return M{"dec": d}
	case "accts":
		w.tables(e)
		out := L{}
		for _, a := range b.Accounts(Str(e["re"]), !Bool(e["all"])) {
			out = append(out, a)
		}
		return M{"accts": out}
	case "register":
		w.tables(e)
		return register(b, e)
	case "accumulate":
		w.tables(e)
		return accumulate(b, e)
	case "dedup":
		return dedup(b, e)
	case "reclass":
		w.names(e["ref"].(M))
		return reclassify(b, e)
	case "ops":
		return w.ops(b, e)
	}
	panic("unknown event " + Str(e["op"]))
}

func join(ss []string) string { return strings.Join(ss, ",") }
