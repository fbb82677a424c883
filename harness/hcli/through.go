package main

import (
	"math/rand"
	"strings"

	. "verifharness/vh"
)

func focusOp(r *rand.Rand, n Names, focus string) M {
	switch focus {
	case "map":
		return RandMap(r)
	case "move":
		return RandMove(r)
	case "depreciate":
		e := RandDepr(r)
		if Int(e["n"]) > 30 {
			e["n"] = 5
		}
		return e
	case "window":
		return RandWindow(r, n)
	case "combine":
		return RandCombine(r)
	case "mapccy":
		return RandMapCcy(r)
	}
	return RandOp(r, n)
}

// some more days in the months that there are
func (g *gen) closeDays() {
	for _, d := range g.d.Dates {
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			g.d.Dates = append(g.d.Dates, d/100*100+1+g.r.Intn(28))
		}
	}
	g.n.Dates = g.d.Dates
}

// genThrough: what a property says about books, seen through the commands of the program
func genThrough(focus string) Gen {
	return func(seed int64, tier string, n int) []Scenario {
		var out []Scenario
		for k := 0; k < n; k++ {
			g := start(seed, "through-"+focus, k)
			r := g.r
			if Chance(r, 60) {
				g.closeDays()
			}
			g.body(1 + r.Intn(max(20, 6, k)))
			g.prices()
			if focus == "convert" || focus == "regbase" || focus == "sum" {
				g.prices()
			}
			g.load("main.ledger")
			ops := g.ops(20)
			switch focus {
			case "map", "move", "depreciate", "window", "combine", "mapccy", "ops":
				for j := 1 + r.Intn(2); j > 0; j-- {
					if t := OpString(focusOp(r, g.n, focus)); t != "" {
						ops = append(ops, t)
					}
				}
				if Chance(r, 20) {
					ops = append(ops, g.ops(50)...)
				}
			}
			json := func(m M) M { return with(m, "report.type", "Json", "ccy", g.base) }
			switch focus {
			case "map", "move", "depreciate", "window", "ops":
				switch r.Intn(4) {
				case 0:
					g.run("export", ops, nil, g.split(with(M{}, "export.type", Pick(r, "Json", "CSV"))), "records")
				case 1:
					g.run("register", ops, "^.*$", g.split(with(g.some(50, "register.combined", "register.asc", "all"), "register.type", Pick(r, "JSON", "CSV"), "ccy", g.base)), "entries")
				default:
					g.run("report", ops, nil, g.split(json(M{"report.combineby": Pick(r, "skip", "skip", "skip", "none"), "report.sum": "false"})), "records")
				}
			case "combine":
				g.run("report", ops, nil, g.split(json(M{"report.combineby": Pick(r, "yearly", "quarterly", "monthly", "none", "today", "skip"), "report.sum": "false"})), "records")
			case "mapccy":
				if Chance(r, 50) {
					g.run("export", ops, nil, g.split(with(M{}, "export.type", "Ledger")), "ledger")
				} else {
					g.run("report", ops, nil, g.split(json(M{"report.combineby": "skip", "report.sum": "false"})), "records")
				}
			case "convert":
				if Chance(r, 70) {
					g.run("report", ops, nil, g.split(json(M{"report.combineby": Pick(r, "skip", "skip", "skip", "monthly", "yearly", "none"), "report.convert": "true", "report.sum": "false"})), "records")
				} else {
					g.run("register", ops, "^.*$", g.split(with(g.some(40, "register.combined", "register.split"), "register.convert", "true", "register.type", Pick(r, "JSON", "CSV"), "ccy", g.base)), "entries")
				}
			case "regbase", "entries":
				set := with(g.some(40, "register.combined", "register.split", "register.asc", "all"), "register.type", "JSON", "ccy", g.base)
				chk := "records"
				if focus == "entries" {
					chk = "entries"
					set["register.type"] = Pick(r, "Text", "JSON", "CSV")
				}
				g.run("register", ops, g.acctRe(), g.split(set), chk)
			case "sum", "tree":
				set := json(with(g.some(40, "report.credit", "report.hidden", "report.convert", "divider"), "report.sum", "true"))
				set["report.combineby"] = Pick(r, "yearly", "quarterly", "monthly", "today", "none", "skip")
				chk := "records"
				if focus == "tree" && Chance(r, 70) {
					chk, set["report.type"] = "screen", "Text"
				}
				g.run("report", ops, nil, g.split(set), chk)
			case "accts":
				set := g.some(50, "all", "colour")
				if Chance(r, 40) {
					set["accts.json"] = "true"
				}
				g.run("accts", L{}, g.acctRe(), g.split(set), "entries")
			case "opstr":
				names := Subset(r, []string{"m", "m2", "map", "since", "a b", "é", "combine"}, r.Intn(4))
				text := func() string {
					for {
						if t := RandOpText(r, g.n, names); !Wild(t) && !strings.HasPrefix(t, "-") {
							return t
						}
					}
				}
				mac := M{}
				for i, m := range names {
					body := L{}
					for j := r.Intn(4); j > 0; j-- {
						t := text()
						for _, x := range names[i:] {
							if x == t && Chance(r, 70) { // mostly no self-reference
								t = "combine=monthly"
							}
						}
						body = append(body, t)
					}
					mac[m] = body
				}
				l := L{}
				for j := 1 + r.Intn(3); j > 0; j-- {
					l = append(l, text())
				}
				g.cfg("conf", M{"ccy": g.base}, mac)
				g.run("report", l, nil, M{"report.type": "Json", "report.combineby": "skip", "report.sum": "false"}, "records", "refuse")
			}
			out = append(out, g.done("through-"+focus, seed, k))
		}
		return out
	}
}
