package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	. "verifharness/vh"
)

type gen struct {
	r      *rand.Rand
	d      *Doc
	acct   string
	payees []string
	ev     []M
}

func one(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// a ledger with several two-posting transactions on one account
func start(seed int64, label string, k int) *gen {
	r := Rng(seed, fmt.Sprintf("script-%s-%d", label, k))
	g := &gen{r: r, d: NewDoc(r)}
	g.acct = one(r, g.d.Accts)
	g.payees = Subset(r, append([]string{"Shop 12", "SHOP", "Shopp", "Sho", "Aldi", "Aldi Sud 4711", "Rent Mai", "Rent", "tfl travel charge", "TFL TRAVEL CH", "Zed", "Shop"}, LPayees...), 3+r.Intn(4))
	for n := r.Intn(4); n > 0; n-- {
		g.d.Txn(nil)
	}
	return g
}

func (g *gen) history(n int) {
	r := g.r
	for ; n > 0; n-- {
		dt := one1(r, g.d.Dates)
		p := strings.TrimSpace(one(r, g.payees))
		for strings.HasPrefix(p, "\"") || strings.Contains(p, ";") || strings.HasPrefix(p, "*") {
			p = "plain"
		}
		other := one(r, g.d.Accts)
		c := one(r, g.d.Ccys)
		v := DecAmt(r)
		g.d.Lines = append(g.d.Lines, fmt.Sprintf("%04d/%02d/%02d %s", dt/10000, dt/100%100, dt%100, p), "  "+g.acct+"  "+g.d.Amount(c, v, true), "  "+other)
		g.d.Want = append(g.d.Want, M{}, M{}, M{})
	}
}

func one1(r *rand.Rand, xs []int) int { return xs[r.Intn(len(xs))] }

func (g *gen) load() {
	names := map[string]bool{}
	for _, a := range g.d.Accts {
		names[a] = true
	}
	l := L{}
	for _, n := range SortedKeys(names) {
		l = append(l, n)
	}
	g.ev = append(g.ev, M{"op": "load", "files": L{M{"n": "main.ledger", "t": g.d.Text(false), "want": g.d.Want}}, "main": "main.ledger", "names": l})
}

func s(v string) M   { return M{"e": "s", "v": v} }
func num(v string) M { return M{"e": "f", "v": v} }
func whole(v int) M  { return M{"e": "i", "v": fmt.Sprint(v)} }
func add(kv ...interface{}) M {
	a := M{}
	for k := 0; k+1 < len(kv); k += 2 {
		a[kv[k].(string)] = kv[k+1]
	}
	return M{"s": "add", "a": a}
}

func (g *gen) dateText(d int) string {
	y, m, x := d/10000, d/100%100, d%100
	switch g.r.Intn(8) {
	case 0:
		return fmt.Sprintf("%04d/%02d/%02d", y, m, x)
	case 1:
		return fmt.Sprintf("%02d.%02d.%04d", x, m, y)
	case 2:
		return fmt.Sprintf("%04d-%d-%d", y, m, x)
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, x)
}

var notes = []string{"", "", "n1", "ref 12; x", "ünï \"q\"", "£5 @ x"}

// a payee that a file may have: a known one, or nearly
func (g *gen) payee() string {
	r := g.r
	p := one(r, g.payees)
	switch r.Intn(10) {
	case 0:
		p = p + " " + fmt.Sprint(r.Intn(100))
	case 1:
		p = strings.ToUpper(p)
	case 2:
		if q := []rune(p); len(q) > 2 {
			k := r.Intn(len(q) - 1)
			q[k], q[k+1] = q[k+1], q[k]
			p = string(q)
		}
	case 3:
		if q := []rune(p); len(q) > 2 {
			p = string(q[:len(q)-1])
		}
	}
	return p
}

func (g *gen) amount() string {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return fmt.Sprint(r.Intn(2000) - 1000)
	case 1:
		return fmt.Sprintf("+%d.%02d", r.Intn(100), r.Intn(100))
	case 2:
		return fmt.Sprintf("%de%d", r.Intn(100)-50, r.Intn(4))
	case 3:
		return fmt.Sprintf("%d/%d", r.Intn(100)-50, []int{1, 2, 4, 5, 8, 1000}[r.Intn(6)])
	case 4:
		return Pick(r, ".5", "5.", "-.25", "0", "0.00", "-0", "007", "1E-3", "12.5e-2", "100000000000000000000.01")
	case 5:
		return DecAmt(r).FloatString(4)
	}
	return fmt.Sprintf("%.2f", float64(r.Intn(200000)-100000)/100)
}

type table struct {
	cols []string
	rows [][]string
	// what each column is
	what []string
}

func (g *gen) table(n int) table {
	r := g.r
	t := table{what: []string{"date", "desc", "amt"}}
	for _, w := range []string{"note", "lnote", "kind", "ccy"} {
		if Chance(r, 35) {
			t.what = append(t.what, w)
		}
	}
	r.Shuffle(len(t.what), func(a, b int) { t.what[a], t.what[b] = t.what[b], t.what[a] })
	for k, w := range t.what {
		t.cols = append(t.cols, Pick(r, w, strings.ToUpper(w), w+" of it", "Spalte "+fmt.Sprint(k)+" ä"))
	}
	for ; n > 0; n-- {
		var row []string
		if len(t.rows) > 0 && Chance(r, 20) { // again, or nearly
			row = append(row, t.rows[r.Intn(len(t.rows))]...)
			for k, w := range t.what {
				if w == "amt" && Chance(r, 50) {
					row[k] = g.amount()
				}
			}
		} else {
			for _, w := range t.what {
				row = append(row, g.cell(w))
			}
		}
		t.rows = append(t.rows, row)
	}
	return t
}

func (g *gen) cell(w string) string {
	switch w {
	case "date":
		d := one1(g.r, g.d.Dates)
		if Chance(g.r, 40) {
			d = Near(g.r, d)
		}
		return g.dateText(d)
	case "desc":
		return g.payee()
	case "amt":
		return g.amount()
	case "kind":
		return Pick(g.r, "A", "B", "", "a,b", "x\"y")
	case "ccy":
		return one(g.r, g.d.Ccys)
	}
	return one(g.r, notes)
}

// ---- files

func (g *gen) csv(t table, delim string, header bool) string {
	r := g.r
	var b strings.Builder
	cell := func(v string) {
		must := strings.ContainsAny(v, "\"\n\r"+delim) || strings.HasPrefix(v, " ") || strings.HasPrefix(v, "\t") || strings.HasPrefix(v, "\u00a0")
		if !must && v == "" && len(t.what) == 1 {
			must = true
		}
		if must || Chance(r, 15) {
			v = "\"" + strings.ReplaceAll(v, "\"", "\"\"") + "\""
		}
		if Chance(r, 8) && delim != "\t" && delim != " " {
			v = Pick(r, " ", "  ", "\t") + v
		}
		b.WriteString(v)
	}
	nl := Pick(r, "\n", "\n", "\r\n")
	line := func(q []string) {
		for k, v := range q {
			if k > 0 {
				b.WriteString(delim)
			}
			cell(v)
		}
		b.WriteString(nl)
		if Chance(r, 4) {
			b.WriteString(nl)
		}
	}
	if header {
		line(t.cols)
	}
	for _, q := range t.rows {
		line(q)
	}
	x := b.String()
	if Chance(r, 20) {
		x = strings.TrimSuffix(x, nl)
	}
	return x
}

func jstr(r *rand.Rand, v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range v {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32:
			if c == '\n' && Chance(r, 50) {
				b.WriteString("\\n")
			} else {
				fmt.Fprintf(&b, "\\u%04x", c)
			}
		case c > 0xffff && Chance(r, 50):
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		case c <= 0xffff && Chance(r, 6):
			fmt.Fprintf(&b, "\\u%04X", c)
		case c == '/' && Chance(r, 30):
			b.WriteString("\\/")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *gen) sp() string {
	if Chance(g.r, 12) {
		return Pick(g.r, " ", "\n", "\t", "  ", "\r\n")
	}
	return ""
}

func (g *gen) json(t table, dicts bool, wrap []string) string {
	r := g.r
	val := func(w, v string) string {
		if w == "amt" && Chance(r, 70) {
			x, ok := new(big.Rat).SetString(v)
			if ok && len(v) < 14 {
				t := v
				if !json.Valid([]byte(t)) || strings.HasPrefix(t, "-0") {
					t = x.FloatString(3)
				}
				if !strings.HasPrefix(t, "-0.000") && t != "-0" {
					return t
				}
			}
		}
		return jstr(r, v)
	}
	var rows []string
	for _, q := range t.rows {
		var cs []string
		for k, v := range q {
			c := val(t.what[k], v)
			if dicts {
				c = jstr(r, t.cols[k]) + g.sp() + ":" + g.sp() + c
			}
			cs = append(cs, c)
		}
		if dicts {
			r.Shuffle(len(cs), func(a, b int) { cs[a], cs[b] = cs[b], cs[a] })
			rows = append(rows, "{"+g.sp()+strings.Join(cs, g.sp()+","+g.sp())+g.sp()+"}")
		} else {
			rows = append(rows, "["+g.sp()+strings.Join(cs, ","+g.sp())+"]")
		}
	}
	x := "[" + g.sp() + strings.Join(rows, g.sp()+","+g.sp()) + g.sp() + "]"
	for k := len(wrap) - 1; k >= 0; k-- {
		x = "{" + jstr(r, wrap[k]) + ":" + x
		if Chance(r, 40) {
			x += ", \"z\" : " + Pick(r, "1", "-2.5", "true", "false", "\"t\"", "[]", "{}", "[null]", "1e3", "0.1")
		}
		x += "}"
	}
	return g.sp() + x + g.sp()
}

// damage a text somewhere
func (g *gen) spoil(t string) string {
	r := g.r
	q := []rune(t)
	if len(q) == 0 {
		return "\""
	}
	k := r.Intn(len(q))
	switch r.Intn(5) {
	case 0:
		return string(q[:k])
	case 1:
		return string(q[:k]) + string(q[k+1:])
	case 2:
		return string(q[:k]) + Pick(r, "\"", ",", "]", "}", "{", "\n", ":", "\\", "x", "0", " ") + string(q[k:])
	case 3:
		return t + Pick(r, "x", "{}", "\"", ",", "[]", "\"a\"b")
	}
	q[k] = []rune("\",]}[{\n:x0;")[r.Intn(11)]
	return string(q)
}

var wraps = [][]string{nil, nil, {"items"}, {"data", "b ö"}}

// one or several files of one form, and what the script finds in them
type form struct {
	fmt   M
	files L
	path  L
	col   func(k int) M // the k-th column of a record
	t     table
}

func (g *gen) form(kind string, nfiles, nrows int) form {
	r := g.r
	f := form{path: L{}}
	t := g.table(nrows)
	if kind == "" {
		kind = Pick(r, "csv", "csv", "json")
	}
	names := []string{Pick(r, "a.dat", "a.dat", "./a.dat", "sub/a.dat", "sub//a%20b.dat"), Pick(r, "b.csv", "b.csv", "./sub/./b.csv", "sub/b", "file:b"), Pick(r, "c d.txt", "ü/c.json.txt")}
	delim, header, dicts, wrap := ",", Chance(r, 50), Chance(r, 70), wraps[r.Intn(len(wraps))]
	params := M{}
	if kind == "csv" {
		if Chance(r, 40) {
			delim = Pick(r, ";", "|", "\t", "§", ":", " ", "x")
			params["delim"] = delim
		}
		if header || Chance(r, 30) {
			params["header"] = fmt.Sprint(header)
			if Chance(r, 20) {
				params["header"] = strings.ToUpper(fmt.Sprint(header))
			}
		}
		dicts = header
	}
	for k := 0; k < nfiles; k++ {
		if k > 0 {
			u := g.table(nrows)
			u.what, u.cols = t.what, t.cols
			u.rows = nil
			for n := 0; n < nrows; n++ {
				if len(t.rows) > 0 && Chance(r, 40) {
					u.rows = append(u.rows, t.rows[r.Intn(len(t.rows))])
				} else {
					var row []string
					for _, w := range t.what {
						row = append(row, g.cell(w))
					}
					u.rows = append(u.rows, row)
				}
			}
			t = u
		}
		var x string
		if kind == "csv" {
			x = g.csv(t, delim, header)
		} else {
			x = g.json(t, dicts, wrap)
		}
		n := names[k]
		if nfiles == 1 && Chance(r, 20) {
			n = "-"
		}
		f.files = append(f.files, M{"n": n, "t": x})
	}
	if kind == "json" {
		for _, w := range wrap {
			f.path = append(f.path, M{"t": "s", "v": w})
		}
	}
	f.fmt = M{"type": kind, "params": params}
	f.t = t
	f.col = func(k int) M {
		if dicts {
			return M{"e": "rec", "path": L{M{"t": "s", "v": t.cols[k]}}}
		}
		return M{"e": "rec", "path": L{M{"t": "i", "n": k}}}
	}
	return f
}

func (f form) of(w string) (M, bool) {
	for k, x := range f.t.what {
		if x == w {
			return f.col(k), true
		}
	}
	return nil, false
}

func (f form) loop(b ...interface{}) M {
	return M{"s": "each", "x": M{"e": "data", "path": f.path}, "b": L(b)}
}

// the ordinary add() of a record
func (g *gen) record(f form) M {
	a := M{}
	for _, w := range []string{"date", "desc", "amt", "note", "lnote", "ccy"} {
		if c, ok := f.of(w); ok {
			a[w] = c
		}
	}
	return M{"s": "add", "a": a}
}

func (g *gen) event(op string, f form, script L) M {
	r := g.r
	cc := Pick(r, "Expense:Unknown", "Expense:Unknown", one(r, g.d.Accts))
	if cc == g.acct {
		cc = "Expense:Unknown"
	}
	e := M{"op": op, "script": script, "style": r.Intn(1024), "def": Chance(r, 30), "codefile": Chance(r, 30), "dedup": Chance(r, 60), "reclass": Chance(r, 50), "lang": Pick(r, "en", "en", "de", "fr", "nl", "C"),
		"files": f.files, "fmt": f.fmt, "df": M{"account": g.acct, "ccy": one(r, g.d.Ccys), "caccount": cc}}
	if op == "generate" {
		e["df"] = M{"account": "acct", "ccy": "ccy", "caccount": "cacct"}
		e["files"], e["fmt"] = L{}, M{"type": "csv", "params": M{}}
	}
	return e
}

func (g *gen) done(label string, seed int64, k int) Scenario {
	return Scenario{ID: fmt.Sprintf("%s-%d-%d", label, seed, k), Ev: g.ev}
}

// ---- modes

func size(tier string, r *rand.Rand, n int) int {
	if tier == "thorough" && Chance(r, 30) {
		n *= 3
	}
	return 1 + r.Intn(n)
}

// imports with every kind of argument, and wrong ones
func genImport(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "import", k)
		r := g.r
		g.history(r.Intn(4))
		g.load()
		for m := 1 + r.Intn(2); m > 0; m-- {
			f := g.form("", 1+r.Intn(2), size(tier, r, 5))
			script := L{}
			if Chance(r, 30) {
				script = append(script, M{"s": "print", "x": Pick2(r, s("start\nof it"), M{"e": "file"}, s("")).(M)})
			}
			var b L
			x := g.record(f)
			a := x["a"].(M)
			g.more(a, f)
			if Chance(r, 25) {
				c, _ := f.of("desc")
				b = append(b, M{"s": "when", "x": c, "v": g.payee(), "b": L{M{"s": "print", "x": c}}})
			}
			b = append(b, x)
			if c, ok := f.of("kind"); ok && Chance(r, 60) {
				b = L{M{"s": "when", "x": c, "v": Pick(r, "A", "", "x\"y"), "b": b}}
				if Chance(r, 30) {
					b = append(b, M{"s": "when", "x": c, "v": "B", "b": L{M{"s": "error", "v": "kind B is not known"}}})
				}
			}
			script = append(script, f.loop(b...))
			for Chance(r, 35) {
				y := add("date", s(g.cell("date")), "desc", s(g.payee()), "amt", s(g.amount()))
				g.more(y["a"].(M), f)
				script = append(script, y)
			}
			if Chance(r, 22) {
				script = g.wrong(script, f)
			}
			g.ev = append(g.ev, g.event("import", f, script))
		}
		out = append(out, g.done("import", seed, k))
	}
	return out
}

func Pick2(r *rand.Rand, xs ...interface{}) interface{} { return xs[r.Intn(len(xs))] }

func (g *gen) more(a M, f form) {
	r := g.r
	_, isRec := a["date"].(M)["path"]
	if Chance(r, 15) {
		a["amt"] = Pick2(r, s(g.amount()), num(fmt.Sprintf("%d.%d", r.Intn(1000), 1+r.Intn(99))), whole(r.Intn(100000)), num("0.1"), num("1e3"), num("123456789012.25")).(M)
	}
	if Chance(r, 25) {
		a["denom"] = whole([]int{100, 10, 1, 1000, 8, -100, 2}[r.Intn(7)])
	}
	if Chance(r, 20) {
		a["account"] = s(one(r, g.d.Accts))
	}
	if Chance(r, 20) {
		a["caccount"] = s(one(r, g.d.Accts))
	}
	if !isRec && Chance(r, 30) {
		a["ccy"] = s(one(r, g.d.Ccys))
	}
	if !isRec && Chance(r, 30) {
		a["note"] = s(one(r, notes))
	}
	if !isRec && Chance(r, 30) {
		a["lnote"] = s(one(r, notes))
	}
	if Chance(r, 25) {
		a["amt2"] = Pick2(r, s(g.amount()), num("12.5"), whole(7), M{"e": "none"}).(M)
		a["account2"] = s(one(r, g.d.Accts))
		if Chance(r, 70) {
			a["ccy2"] = s(one(r, g.d.Ccys))
		}
		if Chance(r, 40) {
			a["denom2"] = whole([]int{100, 10, 4, -1}[r.Intn(4)])
		}
		if Str(a["amt2"].(M)["e"]) == "none" && Chance(r, 70) {
			delete(a, "account2")
		}
	}
}

// one thing in a script or its files made wrong
func (g *gen) wrong(script L, f form) L {
	r := g.r
	bad := func(kv ...interface{}) L {
		y := add("date", s(g.cell("date")), "desc", s(g.payee()), "amt", s(g.amount()))
		a := y["a"].(M)
		for k := 0; k+1 < len(kv); k += 2 {
			if kv[k+1] == nil {
				delete(a, kv[k].(string))
			} else {
				a[kv[k].(string)] = kv[k+1]
			}
		}
		return append(script, y)
	}
	switch r.Intn(20) {
	case 0:
		return bad("date", s(Pick(r, "2020-02-30", "2020-13-01", "", "soon", "2020-01-01x", "2020", "31/31/2020", "0000-01-01", "2021-02-29", "2020-01-32", "-", "20-20-20-20")))
	case 1:
		return bad("amt", s(Pick(r, "", "x", "1,000.00", "£5", " 1", "1 ", "1.2.3", "--1", "1/0", "-", "+", ".", "e5", "1.5e", "5 EUR", "1,5")))
	case 2:
		return bad("denom", Pick2(r, whole(0), num("1.5"), s("100"), M{"e": "none"}, M{"e": "b", "v": "true"}))
	case 3:
		return bad("amt", Pick2(r, M{"e": "none"}, M{"e": "b", "v": "true"}, M{"e": "data", "path": L{}}))
	case 4:
		return bad("amt2", s("5"))
	case 5:
		return bad("account2", s("Asset:Other"))
	case 6:
		return bad(Pick(r, "date", "desc", "amt"), nil)
	case 7:
		return bad(Pick(r, "ccy", "account", "note", "lnote", "caccount", "desc", "date"), Pick2(r, whole(5), M{"e": "none"}, num("1.5")))
	case 8:
		return bad(Pick(r, "amount", "Date", "memo", "acct"), s("x"))
	case 9:
		return bad("amt2", s("5"), "account2", s("Asset:Other"), "denom2", whole(0))
	case 10:
		return append(script, M{"s": "error", "v": Pick(r, "no such thing", "it's \"over\"", "")})
	case 11:
		return append(L{M{"s": "broken", "n": r.Intn(5)}}, script...)
	case 12:
		return append(script, M{"s": "print", "x": M{"e": "data", "path": L{M{"t": "s", "v": "nowhere"}}}})
	case 13, 14, 15, 16:
		x := f.files[r.Intn(len(f.files))].(M)
		x["t"] = g.spoil(Str(x["t"]))
	case 17:
		f.fmt["type"] = Pick(r, "xml", "CSV", "")
	case 18:
		if Str(f.fmt["type"]) == "csv" {
			f.fmt["params"].(M)[Pick(r, "header", "delim")] = Pick(r, "", "maybe", "ab", "\"", "\n")
		}
	case 19:
		return append(script, bad("amt2", s("x"), "account2", s("Asset:Other"))[len(script)])
	}
	return script
}

// the values that the script sees
func genFormats(seed int64, tier string, n int) []Scenario {
	odd := []string{"", " lead", "trail ", "a\"b", "\"\"", "x,y", "line\nbreak", "tab\there", "日本", "😀", "\u00a0nbsp", "a;b", "a|b", "null", "1.0", "true", "\\", "\\n", "\u2028", "é", "'", "#", "a b", "\ufeffbom", "/"}
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "formats", k)
		r := g.r
		g.load()
		for m := 1 + r.Intn(3); m > 0; m-- {
			f := g.form("", 1, 1)
			kind := Str(f.fmt["type"])
			t := table{}
			for c := 1 + r.Intn(4); c > 0; c-- {
				t.cols = append(t.cols, fmt.Sprint("c", len(t.cols), Pick(r, "", " ", "ä", "\"", ",")))
				t.what = append(t.what, Pick(r, "amt", "x", "x", "x"))
			}
			for c := r.Intn(5); c > 0; c-- {
				var row []string
				for _, w := range t.what {
					if w == "amt" {
						row = append(row, g.amount())
					} else {
						row = append(row, one(r, odd))
					}
				}
				t.rows = append(t.rows, row)
			}
			var x string
			if kind == "csv" {
				header := strings.ToLower(Str(f.fmt["params"].(M)["header"])) == "true"
				delim, ok := f.fmt["params"].(M)["delim"]
				if !ok {
					delim = ","
				}
				x = g.csv(t, Str(delim), header)
			} else if Chance(r, 50) {
				x = g.json(t, Chance(r, 60), wraps[r.Intn(len(wraps))])
			} else {
				x = g.value(3)
			}
			if Chance(r, 25) {
				x = g.spoil(x)
			}
			f.files = L{M{"n": Pick(r, "a.dat", "-", "./x/a.dat"), "t": x}}
			script := L{M{"s": "show", "x": M{"e": "data", "path": L{}}}}
			if Chance(r, 20) {
				script = append(script, M{"s": "show", "x": M{"e": "file"}})
			}
			if Chance(r, 30) {
				script = append(script, M{"s": "each", "x": M{"e": "data", "path": L{}}, "b": L{M{"s": "show", "x": M{"e": "rec", "path": L{}}}}})
			}
			g.ev = append(g.ev, g.event("import", f, script))
		}
		out = append(out, g.done("formats", seed, k))
	}
	return out
}

// any JSON value
func (g *gen) value(depth int) string {
	r := g.r
	k := r.Intn(9)
	if depth == 0 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return jstr(r, Pick(r, "", "a", "é\n", "😀/", "x\\\"y", "\u0001\u007f"))
	case 1:
		return Pick(r, "0", "1", "-1", "0.5", "1e2", "1E+2", "12.50", "123456789012345", "0.1", "2.5e-3", "1e15", "99999999999999999999", "1.7976931348623157e308", "5e-324")
	case 2:
		return Pick(r, "true", "false")
	case 3:
		if Chance(r, 30) {
			return "null"
		}
		return "[]"
	case 4:
		return "{}"
	case 5:
		return Pick(r, "01", "1.", ".5", "+1", "tru", "'x'", "\"\\x\"", "[1,]", "{\"a\" 1}", "NaN", "1e", "-", "\"\\u12g4\"", "{1:2}", "\"a\tb\"", "7", "8", "\"x\"", "[1]", "{\"k\":[2]}")
	}
	var q []string
	for c := r.Intn(4); c > 0; c-- {
		q = append(q, g.value(depth-1))
	}
	if k == 6 {
		for n := range q {
			q[n] = jstr(r, fmt.Sprint("k", n)) + g.sp() + ":" + g.sp() + q[n]
		}
		return "{" + g.sp() + strings.Join(q, g.sp()+","+g.sp()) + "}"
	}
	return g.sp() + "[" + strings.Join(q, ","+g.sp()) + g.sp() + "]"
}

// several files with much in common with each other and with the ledger
func genDedup(seed int64, tier string, n int) []Scenario {
	return plain(seed, tier, n, "dedup", func(g *gen, e M) { e["reclass"] = Chance(g.r, 20); e["dedup"] = Chance(g.r, 75) })
}
func genReclass(seed int64, tier string, n int) []Scenario {
	return plain(seed, tier, n, "reclass", func(g *gen, e M) { e["reclass"] = Chance(g.r, 90); e["dedup"] = Chance(g.r, 30) })
}
func plain(seed int64, tier string, n int, label string, set func(*gen, M)) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, label, k)
		r := g.r
		g.history(2 + r.Intn(6))
		g.load()
		for m := 1 + r.Intn(2); m > 0; m-- {
			f := g.form("", 1+r.Intn(3), size(tier, r, 5))
			x := g.record(f)
			if Chance(r, 20) {
				x["a"].(M)["account"] = s(one(r, g.d.Accts))
			}
			script := L{f.loop(x)}
			// transactions of the ledger once more
			for _, l := range g.d.Lines {
				if len(l) > 11 && l[4] == '/' && l[7] == '/' && l[10] == ' ' && Chance(r, 35) && !strings.ContainsAny(l, ";\"*") {
					script = append(script, add("date", s(l[:10]), "desc", s(strings.TrimSpace(l[11:])), "amt", s(g.amount())))
				}
			}
			e := g.event("import", f, script)
			set(g, e)
			g.ev = append(g.ev, e)
		}
		out = append(out, g.done(label, seed, k))
	}
	return out
}

func genGenerate(seed int64, tier string, n int) []Scenario {
	attrs := []string{"date", "payee", "account", "transaction_note", "amount", "ccy", "posting_note", "balance"}
	var out []Scenario
	for k := 0; k < n; k++ {
		g := start(seed, "generate", k)
		r := g.r
		g.history(1 + r.Intn(4))
		g.load()
		post := func(f string) M { return M{"e": "post", "f": f} }
		for m := 1 + r.Intn(3); m > 0; m-- {
			script := L{}
			for Chance(r, 45) {
				t := "map=" + Str(RandMap(r)["re"])
				if w := OpString(RandWindow(r, Names{Accts: g.d.Accts, Ccys: g.d.Ccys, Dates: g.d.Dates})); Chance(r, 50) && w != "" {
					t = w
				} else {
					t = "map=/" + Pick(r, "^Asset", "^Expense:(.*)$", "Bank", "^.*:", "o", "^X") + "/" + Pick(r, "Asset", "New:$1", "Z", "${0}x") + "/"
					if Chance(r, 40) {
						t += Pick(r, "Other", "Rest:All") + "/"
					}
				}
				script = append(script, M{"s": "book", "t": t})
			}
			var b L
			a := M{"date": post("date"), "desc": post("payee"), "amt": post("amount")}
			if Chance(r, 30) {
				a["desc"] = s(g.payee())
			}
			if Chance(r, 20) {
				a["date"] = s(g.cell("date"))
			}
			if Chance(r, 20) {
				a["amt"] = post("balance")
			}
			if Chance(r, 20) {
				a["amt"] = s(g.amount())
			}
			for _, w := range [][2]string{{"ccy", "ccy"}, {"account", "account"}, {"caccount", "account"}, {"note", "transaction_note"}, {"lnote", "posting_note"}} {
				if Chance(r, 60) {
					a[w[0]] = post(w[1])
				}
			}
			if Chance(r, 25) {
				a["denom"] = whole([]int{100, 2, -1, 12}[r.Intn(4)])
			}
			b = append(b, M{"s": "add", "a": a})
			if Chance(r, 50) {
				b = L{M{"s": "when", "x": post(Pick(r, "account", "account", "payee", "ccy")), "v": Pick(r, g.acct, one(r, g.payees), one(r, g.d.Ccys), one(r, g.d.Accts)), "b": b}}
			}
			if Chance(r, 40) {
				for _, f := range Subset(r, attrs, 1+r.Intn(5)) {
					b = append(b, M{"s": "show", "x": post(f)})
				}
			}
			script = append(script, M{"s": "posts", "b": b})
			if Chance(r, 30) {
				script = append(script, add("date", s(g.cell("date")), "desc", s(g.payee()), "amt", s(g.amount()), "account", s("Asset:Extra")))
			}
			if Chance(r, 12) {
				script = append(script, Pick2(r, M{"s": "book", "t": "since=soon"}, M{"s": "book", "t": "asof=2020-02-31"}, M{"s": "book", "t": "map=/(/x/"}, M{"s": "error", "v": "stop here"}, M{"s": "broken", "n": r.Intn(5)},
					M{"s": "show", "x": post("colour")}).(M))
			}
			g.ev = append(g.ev, g.event("generate", form{}, script))
		}
		out = append(out, g.done("generate", seed, k))
	}
	return out
}
