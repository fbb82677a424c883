package main

import (
	"fmt"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	. "verifharness/vh"
)

// ops applies a list of operation texts as the command line does.
func (w *world) ops(b *book.Book, e M) M {
	macros := map[string][]string{}
	if m, ok := e["macros"].(M); ok {
		for k, v := range m {
			macros[k] = Strs(v)
		}
	}
	names := map[string]bool{}
	for a := range w.accts {
		names[a] = true
	}
	for c := range w.ccys {
		names[c] = true
	}
	e["rx"] = RxTables(Strs(e["ops"]), macros, names)
	e["today"] = Today()
	for n := range names {
		w.accts[n], w.ccys[n] = true, true
	}
	a := &app.App{Divider: ":", Lang: "en", Macros: macros}
	return result(a.BookOps(b, Strs(e["ops"])...))
}

func genOpStr(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("opstr/%d", k))
		o := opt
		o.OneDay = true
		nm := PickNames(r, o)
		var names []string
		macros := M{}
		if Chance(r, 70) {
			names = Subset(r, []string{"m1", "m2", "m3", "M1", "map", "a=b", "since=2020", "", "m 4", "combine=monthly"}, 1+r.Intn(5))
		}
		text := func() string {
			for {
				if t := RandOpText(r, nm, names); !Wild(t) {
					return t
				}
			}
		}
		for i, m := range names {
			body := L{}
			for j := r.Intn(4); j > 0; j-- {
				t := text()
				if _, ok := macros[t]; !ok && i > 0 && Chance(r, 60) {
					// mostly no self-reference: refer to macros defined before
					for _, x := range names[i:] {
						if x == t {
							t = names[r.Intn(i)]
						}
					}
				}
				body = append(body, t)
			}
			macros[m] = body
		}
		ops := L{}
		for j := 1 + r.Intn(4); j > 0; j-- {
			ops = append(ops, text())
		}
		ev := []M{RandBuild(r, nm, o), {"op": "ops", "ops": ops, "macros": macros}, view("amounts"), {"op": "prices"}}
		out = append(out, scen("opstr", seed, k, ev...))
	}
	return out
}
