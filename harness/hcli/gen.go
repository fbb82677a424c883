package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"

	. "verifharness/vh"
)

// a generated ledger and the names to talk about it
type gen struct {
	r     *rand.Rand
	d     *Doc
	n     Names
	base  string
	names map[string]bool
	seen  map[string]bool // prices there are
	ev    []M
}

func start(seed int64, label string, k int) *gen {
	r := Rng(seed, fmt.Sprintf("%s-%d", label, k))
	g := &gen{r: r, d: NewDoc(r)}
	if k%40 == 7 { // accounts at every depth of one long branch
		g.d.Accts = nil
		for a, j := "Deep", 9+r.Intn(8); j > 0; j-- {
			a += ":" + strconv.Itoa(j)
			g.d.Accts = append(g.d.Accts, Pick(r, a, a+"x"))
		}
	}
	g.n = Names{Accts: g.d.Accts, Ccys: g.d.Ccys, Dates: g.d.Dates}
	g.base = g.d.Ccys[r.Intn(len(g.d.Ccys))]
	return g
}

// prices: at most one per pair and day, mostly to or from the base currency
func (g *gen) prices() {
	if g.seen == nil {
		g.seen = map[string]bool{}
	}
	seen := g.seen
	for k := g.r.Intn(7); k > 0; k-- {
		u, c := g.d.Ccys[g.r.Intn(len(g.d.Ccys))], g.base
		if Chance(g.r, 25) {
			u = Pick(g.r, "XAU", "usd", "A B")
		}
		if Chance(g.r, 25) {
			u, c = c, u
		}
		if u == c {
			continue
		}
		dt := g.d.Dates[g.r.Intn(len(g.d.Dates))]
		if Chance(g.r, 50) {
			dt = Date(g.r, []int{dt / 10000})
		}
		key := fmt.Sprint(u, "|", c, "|", dt)
		if seen[key] {
			continue
		}
		seen[key] = true
		g.d.PriceOf(dt, u, c, big.NewRat(int64(1+g.r.Intn(20000)), []int64{1, 10, 100, 1000, 8}[g.r.Intn(5)]))
	}
}

func (g *gen) body(n int) {
	for ; n > 0; n-- {
		if Chance(g.r, 8) {
			g.d.Noise()
		}
		g.d.Txn(nil)
	}
}

// the names that a ledger mentions
func said(d *Doc, names map[string]bool) {
	for _, w := range d.Want {
		m := w.(M)
		for _, k := range []string{"a", "c", "u", "l", "s"} {
			if t, ok := m[k].(string); ok {
				names[t] = true
			}
		}
	}
}

func (g *gen) load(main string, more ...M) {
	names := map[string]bool{g.base: true}
	said(g.d, names)
	fs := L{M{"n": main, "t": g.d.Text(false), "want": g.d.Want}}
	mains := L{main}
	for _, f := range more {
		fs = append(fs, f)
	}
	g.names = names
	g.ev = append(g.ev, M{"op": "load", "files": fs, "mains": mains, "names": L{}})
	g.setNames()
}
func (g *gen) setNames() {
	l := L{}
	for _, n := range SortedKeys(g.names) {
		l = append(l, n)
	}
	g.ev[0]["names"] = l
}

var langs = []string{"en", "en", "de", "nl", "fr", "de-DE", "fr-FR", "en-GB", "nl-NL", "C", ""}

func (g *gen) ops(pct int) L {
	out := L{}
	for Chance(g.r, pct) && len(out) < 4 {
		e := RandOp(g.r, g.n)
		if Str(e["op"]) == "depreciate" && Int(e["n"]) > 30 {
			e["n"] = 5
		}
		if t := OpString(e); t != "" {
			out = append(out, t)
		}
	}
	return out
}

func (g *gen) credit() string {
	return Pick(g.r, "", "^Income", defaultCredit, "^Asset:Bank$", ".*", "Food", "^[A-Z][a-z]*$", "^Liability(:.*)?$", "1st")
}
func (g *gen) acctRe() string {
	a := g.d.Accts[g.r.Intn(len(g.d.Accts))]
	return Pick(g.r, "^.*$", "^Asset", "^Asset:Bank$", "Bank", "^Expense(:.*)?$", ".", "^"+a+"$", a, "Nothing", "(?i)asset", "^[A-M]")
}
func (g *gen) day() string {
	if Chance(g.r, 80) {
		return DateText(g.r, Near(g.r, g.d.Dates[g.r.Intn(len(g.d.Dates))]))
	}
	return Pick(g.r, "2020", "2020-06", "this year", "last month", "1/2/2020", "not a date", "2020-02-30", "31/04/2021")
}
func yes(r *rand.Rand, pct int) string {
	if Chance(r, pct) {
		return "true"
	}
	return "false"
}

// a random setting of its kind
func (g *gen) value(n string) string {
	r := g.r
	switch n {
	case "ccy":
		if Chance(r, 75) {
			return g.base
		}
		return Pick(r, g.d.Ccys[r.Intn(len(g.d.Ccys))], "XAU", "€")
	case "divider":
		return Pick(r, ":", ":", ":", "::", "_", "'", "a", "&", ":B")
	case "lang":
		return langs[r.Intn(len(langs))]
	case "report.credit":
		return g.credit()
	case "report.hidden":
		return Pick(r, "", g.d.Accts[r.Intn(len(g.d.Accts))], "Asset", "Equity", "Asset:Ba", "Expense")
	case "report.htmlcss":
		return ""
	case "register.begin", "register.asof":
		return g.day()
	case "register.count":
		return fmt.Sprint(r.Intn(13) - 6)
	case "report.combineby":
		return Pick(r, "yearly", "quarterly", "monthly", "today", "none", "skip", "Yearly", "SKIP", "monthly")
	case "report.type":
		return Pick(r, "Text", "Ledger", "Json", "Beancount", "text", "JSON")
	case "register.type":
		return Pick(r, "Text", "JSON", "CSV", "csv", "text")
	case "export.type":
		return Pick(r, "Ledger", "Json", "Beancount", "CSV", "csv", "LEDGER")
	case "colour", "report.convert", "report.sum":
		return yes(r, 60)
	case "ledger":
		return "main.ledger"
	}
	return yes(r, 40)
}

func (g *gen) cfg(at string, set M, macros M) {
	g.ev = append(g.ev, M{"op": "cfg", "at": at, "set": set, "macros": macros})
}

// settings of some names, each with a chance
func (g *gen) some(pct int, names ...string) M {
	out := M{}
	for _, n := range names {
		if Chance(g.r, pct) {
			out[n] = g.value(n)
		}
	}
	return out
}

func (g *gen) run(cmd string, ops L, arg interface{}, cli M, chk ...string) {
	c := L{}
	for _, x := range chk {
		c = append(c, x)
	}
	e := M{"op": "run", "cmd": cmd, "ops": ops, "cli": cli, "env": M{"conf": true, "home": true, "xdg": false}, "lang": "C.UTF-8", "chk": c, "form": g.r.Intn(8)}
	if a, ok := arg.(string); ok {
		e["arg"] = a
	}
	g.ev = append(g.ev, e)
}

func (g *gen) done(label string, seed int64, k int) Scenario {
	return Scenario{ID: fmt.Sprintf("%s-%d-%d", label, seed, k), Ev: g.ev}
}

func with(m M, kv ...string) M {
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

// put settings partly into the configuration file, partly on the command line
func (g *gen) split(set M) M {
	conf, cli := M{}, M{}
	keys := map[string]bool{}
	for k := range set {
		keys[k] = true
	}
	for _, k := range SortedKeys(keys) {
		switch {
		case CliOnly(k) || Chance(g.r, 50):
			cli[k] = set[k]
			if !CliOnly(k) && Chance(g.r, 30) {
				conf[k] = g.value(k)
			}
		default:
			conf[k] = set[k]
		}
	}
	g.cfg("conf", conf, M{})
	return cli
}

func CliOnly(n string) bool { return n == "accts.json" }

func max(n, small int, k int) int {
	if k%60 == 0 {
		return n
	}
	return small
}

func genScreen(seed int64, tier string, n int) []Scenario { return screens(seed, n, "screen") }

// the same on terminals of several sizes
func genTerm(seed int64, tier string, n int) []Scenario {
	out := screens(seed, n, "term")
	for i := range out {
		r := Rng(seed, out[i].ID)
		ev := out[i].Ev
		e := ev[len(ev)-1]
		ev = ev[:len(ev)-1]
		for k := 1 + r.Intn(3); k > 0; k-- {
			w := []int{20 + r.Intn(70), 40 + r.Intn(60), 1 + r.Intn(30), 80, 80, 132}[r.Intn(6)]
			h := []int{1 + r.Intn(6), 4 + r.Intn(12), 24, 50}[r.Intn(4)]
			e = Clone(e)
			e["term"] = M{"w": w, "h": h, "pager": Chance(r, 70)}
			ev = append(ev, e)
		}
		out[i].Ev = ev
	}
	return out
}

func screens(seed int64, n int, chk string) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, chk, k)
		g.body(g.r.Intn(max(30, 6, k)))
		g.prices()
		g.load("main.ledger")
		switch j := g.r.Intn(20); {
		case j < 10 && (chk == "screen" || j < 4):
			set := with(g.some(50, "divider", "lang", "report.credit", "report.hidden", "colour", "all"), "report.type", "Text", "report.sum", "true", "ccy", g.base)
			set["report.combineby"] = Pick(g.r, "yearly", "quarterly", "monthly", "today", "none", "skip")
			if Chance(g.r, 15) {
				set["report.sum"] = "false"
				set["report.combineby"] = Pick(g.r, "today", "yearly")
			}
			if Chance(g.r, 60) {
				set["report.convert"] = "true"
			}
			g.run("report", g.ops(30), nil, g.split(set), chk)
		case j < 17:
			set := with(g.some(40, "lang", "colour", "all", "register.combined", "register.asc", "register.split", "register.count", "register.convert"), "register.type", "Text", "ccy", g.base)
			g.run("register", g.ops(25), g.acctRe(), g.split(set), chk)
		case j < 19:
			g.run("accts", L{}, g.acctRe(), g.split(g.some(50, "colour", "all", "lang")), chk)
		default:
			g.run("ccy", L{}, nil, g.split(g.some(50, "colour", "lang")), chk)
		}
		out = append(out, g.done(chk, seed, k))
	}
	return out
}

func genRegister(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "register", k)
		g.body(1 + g.r.Intn(max(40, 8, k)))
		g.prices()
		g.load("main.ledger")
		set := with(g.some(40, "all", "register.combined", "register.asc", "register.split", "register.count", "register.convert", "register.begin", "register.asof", "register.zero"),
			"register.type", Pick(g.r, "Text", "Text", "JSON", "CSV"), "ccy", g.base)
		if Chance(g.r, 50) {
			set["colour"] = "false"
		}
		ops := L{}
		if Chance(g.r, 25) {
			ops = g.ops(50)
		}
		g.run("register", ops, g.acctRe(), g.split(set), "entries", "refuse")
		out = append(out, g.done("register", seed, k))
	}
	return out
}

func genRecords(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "records", k)
		g.body(g.r.Intn(max(30, 6, k)))
		g.prices()
		g.load("main.ledger")
		switch j := g.r.Intn(20); {
		case j < 5:
			set := with(g.some(50, "report.jsonpretty", "report.combineby", "report.hidden", "report.credit"), "report.type", "Json", "ccy", g.base, "report.sum", yes(g.r, 50), "report.convert", yes(g.r, 50))
			g.run("report", g.ops(30), nil, g.split(set), "records")
		case j < 10:
			g.run("export", g.ops(30), nil, g.split(with(g.some(50, "export.jsonpretty"), "export.type", "Json")), "records")
		case j < 14:
			g.run("export", g.ops(30), nil, g.split(with(M{}, "export.type", "CSV")), "records")
		case j < 19:
			set := with(g.some(40, "register.combined", "register.asc", "register.split", "register.convert", "all"), "register.type", Pick(g.r, "JSON", "CSV"), "ccy", g.base)
			g.run("register", g.ops(20), g.acctRe(), g.split(set), "records")
		default:
			g.run("accts", L{}, g.acctRe(), g.split(with(g.some(50, "all"), "accts.json", "true")), "records")
		}
		out = append(out, g.done("records", seed, k))
	}
	return out
}

// web pages
func genHtml(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "html", k)
		if k%40 == 7 {
			g.body(12)
		}
		g.d.Accts = append(g.d.Accts, Pick(g.r, "Asset:a&lt", "Expense:R&B", "X&amp:Y", "Asset:Bank:Sub:Deep:Deeper:1:2:3:4:5:6:7:8:9:10"))
		g.body(1 + g.r.Intn(max(30, 6, k)))
		g.prices()
		files := M{}
		if Chance(g.r, 40) {
			files[Pick(g.r, "style.css", "style.css", "light.css", "e.css", "file:x", "css/main.css")] = Pick(g.r, "", "div { color: red }\n", ".post > .account { content: \"%d&amp;\" }", "/* ü */\n\n")
		}
		var more []M
		name := "style.css"
		for f, t := range files {
			name = f
			more = append(more, M{"n": f, "t": t})
		}
		g.load("main.ledger", more...)
		set := with(g.some(50, "report.combineby", "report.hidden", "report.credit", "lang", "divider", "colour"), "report.type", Pick(g.r, "HTML", "HTML", "html"),
			"ccy", g.base, "report.sum", yes(g.r, 70), "report.convert", yes(g.r, 40))
		if Chance(g.r, 40) {
			set["report.htmlcss"] = Pick(g.r, "file:"+name, "file:"+name, "file:"+name, "file:nothing.css", ".x { y: z }", "p%s%d", name, "file:")
		}
		g.run("report", g.ops(30), nil, g.split(set), "html", "refuse")
		e := g.ev[len(g.ev)-1]
		e["css"] = files
		out = append(out, g.done("html", seed, k))
	}
	return out
}

func genLedger(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "ledger", k)
		g.body(g.r.Intn(max(30, 6, k)))
		for c := g.r.Intn(4); c > 0; c-- {
			g.d.Price()
		}
		g.load("main.ledger")
		if Chance(g.r, 60) {
			g.run("export", g.ops(35), nil, g.split(with(g.some(50, "lang", "colour"), "export.type", "Ledger")), "ledger")
		} else {
			set := with(g.some(50, "lang", "report.combineby", "report.credit", "report.hidden"), "report.type", "Ledger", "report.sum", "false", "ccy", g.base)
			g.run("report", g.ops(35), nil, g.split(set), "ledger")
		}
		out = append(out, g.done("ledger", seed, k))
	}
	return out
}

func genBean(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "bean", k)
		if Chance(g.r, 15) {
			g.d.Ccys = append(g.d.Ccys, Pick(g.r, "A B C", " x  y ", "a b C", "ü x y"))
		}
		g.body(g.r.Intn(max(30, 7, k)))
		for c := g.r.Intn(4); c > 0; c-- {
			g.d.Price()
		}
		if Chance(g.r, 40) { // an account that ends empty
			g.d.Settle()
		}
		g.load("main.ledger")
		if Chance(g.r, 60) {
			g.run("export", g.ops(30), nil, g.split(with(g.some(50, "lang", "ccy"), "export.type", "Beancount")), "bean")
		} else {
			g.run("report", g.ops(30), nil, g.split(with(g.some(50, "lang", "ccy", "report.combineby", "report.sum", "report.convert", "report.credit"), "report.type", "Beancount")), "bean")
		}
		out = append(out, g.done("bean", seed, k))
	}
	return out
}

func genSame(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "same", k)
		for len(g.d.Ccys) < 3+g.r.Intn(5) {
			g.d.Ccys = append(g.d.Ccys, LCcys[g.r.Intn(len(LCcys))])
		}
		g.d.Accts = Subset(g.r, LAccts, 6+g.r.Intn(8))
		g.body(2 + g.r.Intn(8))
		g.prices()
		for c := g.r.Intn(6); c > 0; c-- {
			g.d.Price()
		}
		g.load("main.ledger")
		mac := M{}
		for _, m := range Subset(g.r, []string{"a", "b", "c", "zz", "balance", "a b", "map=", "é"}, g.r.Intn(7)) {
			mac[m] = g.ops(60)
		}
		g.cfg("conf", M{"ccy": g.base, "register.type": "Text"}, mac)
		ops := g.ops(40)
		for m := range mac {
			if Chance(g.r, 30) && len(mac) == 1 {
				ops = append(ops, m)
			}
		}
		var e func()
		switch g.r.Intn(10) {
		case 0, 1, 2:
			c := with(g.some(50, "report.combineby", "report.credit", "report.hidden", "report.sum", "report.convert"), "report.type", Pick(g.r, "Text", "Ledger", "Json", "HTML", "Beancount"))
			e = func() { g.run("report", ops, nil, c, "same") }
		case 3, 4, 5:
			c := M{"export.type": Pick(g.r, "Ledger", "Json", "Beancount", "CSV")}
			e = func() { g.run("export", ops, nil, c, "same") }
		case 6:
			c := with(g.some(40, "register.combined", "register.split", "register.convert"), "register.type", Pick(g.r, "Text", "JSON", "CSV"))
			re := g.acctRe()
			e = func() { g.run("register", ops, re, c, "same") }
		case 7:
			e = func() { g.run("ccy", L{}, nil, M{}, "same") }
		case 8:
			e = func() { g.run("accts", L{}, "^.*$", M{}, "same") }
		default:
			cmd := Pick(g.r, "help macros", "help import", "help config", "__complete report a", "__complete export m", "__complete import b", "shell --type=bash", "help report")
			e = func() { g.run(cmd, L{}, nil, M{}, "same") }
		}
		e()
		f := g.ev[len(g.ev)-1]["form"]
		for j := 0; j < 4; j++ {
			e()
			g.ev[len(g.ev)-1]["form"] = f
		}
		out = append(out, g.done("same", seed, k))
	}
	return out
}

var confNames = []string{"ledger", "ccy", "divider", "lang", "report.credit", "report.hidden", "register.begin", "register.asof", "verbose", "colour", "all", "report.sum",
	"report.convert", "report.jsonpretty", "register.combined", "register.asc", "register.zero", "register.split", "register.convert", "export.jsonpretty", "register.count",
	"report.combineby", "report.type", "register.type", "export.type"}

func section(n string) string {
	s, _ := configKey(n)
	return s
}

func genConfig(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "config", k)
		g.d.Accts = Subset(g.r, LAccts, 3)
		g.body(1 + g.r.Intn(4))
		g.prices()
		g.load("main.ledger")
		// a second ledger, and one that cannot be read
		h := g.d.Sub()
		h.Txn(nil)
		said(h, g.names)
		g.ev[0]["files"] = append(g.ev[0]["files"].(L), M{"n": "other.ledger", "t": h.Text(false), "want": h.Want}, M{"n": "sub/bad.ledger", "t": "2020/01/01 x\n  A  5 EUR\n"})
		g.ev[0]["mains"] = L{"main.ledger", "other.ledger", "sub/bad.ledger"}
		g.setNames()
		ledger := func() string {
			return Pick(g.r, "main.ledger", "main.ledger", "main.ledger", "other.ledger", "./other.ledger", "sub/bad.ledger", "none.ledger")
		}
		places := []string{"conf", "xdg.toml", "xdg.cfg", "user.toml", "user.cfg", "home.toml", "home.cfg", "dot.toml", "dot.cfg", "cwd.toml", "cwd.cfg"}
		wrong := func(m M) {
			switch g.r.Intn(5) {
			case 0:
				m[Pick(g.r, "nonsense", "report.nonsense", "register.nope", "accts.json", "export.csv", "zz.y")] = "true"
			case 1:
				n := Pick(g.r, "report.type", "register.type", "export.type", "report.combineby")
				m[n] = Pick(g.r, "pdf", "Texts", "week", "CS V", "html2", "weekly", "toda")
			case 2:
				m[Pick(g.r, "report.sum", "colour", "register.asc", "all")] = Pick(g.r, "maybe", "2", "truee")
			case 3:
				m["register.count"] = Pick(g.r, "many", "1.5", "1e3", "--1", "5x")
			default:
				m[Pick(g.r, "report.type", "register.type", "export.type")] = Pick(g.r, "HTML", "text", "JSON", "csv", "beancount")
			}
		}
		cfg := func(at string) {
			set := g.some([]int{0, 15, 30}[g.r.Intn(3)], confNames...)
			if _, ok := set["ledger"]; ok {
				set["ledger"] = ledger()
			}
			if _, ok := set["ccy"]; !ok && Chance(g.r, 70) {
				set["ccy"] = g.base
			}
			if Chance(g.r, 15) {
				wrong(set)
			}
			mac := M{}
			if Chance(g.r, 30) {
				mac["m"] = g.ops(50)
			}
			if Chance(g.r, 15) {
				mac["a b"] = L{"m", "combine=yearly"}
			}
			g.cfg(at, set, mac)
			if Chance(g.r, 4) {
				g.ev[len(g.ev)-1]["bad"] = Pick(g.r, "x = ", "[report\n", "= 5\n", "\"open = 1\n", "a = 1\na = 2\n")
			}
		}
		env := M{"conf": Chance(g.r, 30), "home": Chance(g.r, 80), "xdg": Chance(g.r, 40)}
		lang := langs[g.r.Intn(len(langs))]
		for _, at := range places {
			if Chance(g.r, 18) {
				cfg(at)
			}
		}
		for j := 2 + g.r.Intn(3); j > 0; j-- {
			if Chance(g.r, 20) {
				cfg(places[g.r.Intn(len(places))])
			}
			if Chance(g.r, 20) {
				env = M{"conf": Chance(g.r, 30), "home": Chance(g.r, 80), "xdg": Chance(g.r, 40)}
			}
			cmd := Pick(g.r, "report", "report", "register", "register", "export", "accts", "ccy")
			cli := M{}
			for _, n := range confNames {
				if s := section(n); (s == "" || s == cmd) && Chance(g.r, 15) {
					cli[n] = g.value(n)
				}
			}
			if cmd == "accts" && Chance(g.r, 20) {
				cli["accts.json"] = "true"
			}
			if _, ok := cli["ledger"]; ok {
				cli["ledger"] = ledger()
			}
			if Chance(g.r, 10) {
				m := M{}
				wrong(m)
				for n, v := range m {
					if s := section(n); s == "" || s == cmd {
						cli[n] = v
					}
				}
			}
			if Chance(g.r, 50) {
				cli["ccy"] = g.base
			}
			ops := L{}
			if cmd != "accts" && cmd != "ccy" {
				if Chance(g.r, 20) {
					ops = append(ops, Pick(g.r, "m", "a b", "macroA"))
				} else if Chance(g.r, 20) {
					ops = g.ops(30)
				}
			}
			var arg interface{}
			if cmd == "accts" || cmd == "register" {
				arg = Pick(g.r, "^.*$", ".", g.acctRe())
			}
			again := func() {
				g.run(cmd, ops, arg, cli, "screen", "entries", "records", "ledger", "bean", "refuse", "same", "first")
				e := g.ev[len(g.ev)-1]
				e["env"], e["lang"] = Clone(env), lang
			}
			again()
			if Chance(g.r, 30) { // what a first run wrote is read by the next one
				again()
			}
		}
		out = append(out, g.done("config", seed, k))
	}
	return out
}
