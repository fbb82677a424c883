package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	. "verifharness/vh"
)

func s(i int) string { return strconv.Itoa(i) }

// texts in units of a fixed size: wherever a read stops at a power of two, what
// comes before would be a text of its own
func pad(t string, n int, fill string) string {
	if len(t) > n {
		panic("too long: " + t)
	}
	return strings.Replace(t, "@", strings.Repeat(fill, n-len(t)+1), 1)
}

type gen struct{ *rand.Rand }

func (g gen) date() string { return fmt.Sprintf("20%02d/%02d/%02d", 18+g.Intn(4), 1+g.Intn(12), 1+g.Intn(28)) }

func (g gen) ledger(n int) string {
	var b strings.Builder
	b.WriteString(pad("; @\nP 2018/01/01 00:00:00 USD 0.5 GBP\nP 2019/07/01 00:00:00 USD 0.75 GBP\n", 128, "-"))
	acct := []string{"Assets:Bank", "Assets:Cash", "Expenses:Food", "Expenses:Rent:Flat", "Income:Job", "Equity"}
	for i := 0; i < n; i++ {
		ccy := []string{"GBP", "GBP", "USD"}[g.Intn(3)]
		p := g.Perm(len(acct))
		b.WriteString(pad(fmt.Sprintf("%s %s@ ; n%d\n  %s  %s %d.%02d\n  %s\n\n", g.date(), []string{"Shop", "Employer", "Landlord", "Friend"}[g.Intn(4)], i,
			acct[p[0]], ccy, 1+g.Intn(900), g.Intn(100), acct[p[1]]), 128, "x"))
	}
	return b.String()
}

func (g gen) csv(n int) string {
	b := pad("date,payee,amount,x@\n", 32, "x")
	for i := 0; i < n; i++ {
		d := strings.ReplaceAll(g.date(), "/", "-")
		b += pad(fmt.Sprintf("%s,p@,%d.%02d,1\n", d, 1+g.Intn(900), g.Intn(100)), 32, "q")
	}
	return b
}

func (g gen) json(n int) string {
	var q []string
	for i := 0; i < n; i++ {
		d := strings.ReplaceAll(g.date(), "/", "-")
		q = append(q, fmt.Sprintf(`{"date": "%s", "payee": "p%d", "amount": %d}`, d, i, 1+g.Intn(900)))
	}
	return "[" + strings.Join(q, ",\n") + "]\n"
}

// lines of a script, 64 characters each
func lines(q ...string) string {
	var b strings.Builder
	for _, l := range q {
		b.WriteString(pad(l+" #@\n", 64, "-"))
	}
	return b.String()
}

const config = `baseccy = "GBP"

[macros]
mine = ["map=/Food/Eating/", "since=2018-06-01"]

[importdefs.mine]
configtype = "csv"
code = "file:i.star"
account = "Assets:Bank"
counteraccount = "Expenses:Other"

[importdefs.mine.params]
header = "true"

[generate.mine]
code = "file:g.star"
`

var cmds = []string{"report", "report-html", "report-json", "report-ledger", "report-bean", "report-css", "export-csv", "export-json", "export-ledger", "export-bean",
	"register", "register-all", "register-csv", "register-json", "accts", "accts-json", "ccy", "import-csv", "import-two", "import-json", "import-stdin", "generate", "import-mine", "generate-mine", "shell", "pages"}

// the command line and files of a kind of command
func command(cmd string, seed int64, conf string) M {
	g := gen{rand.New(rand.NewSource(seed))}
	n := []int{1, 3, 12, 40, 90}[g.Intn(5)]
	if cmd == "shell" || cmd == "pages" || cmd == "ccy" {
		n = 3
	}
	files := M{"main.ledger": g.ledger(n)}
	stdin := ""
	args := []string{"--ccy", "GBP"}
	code := lines("print(\"begin\")", "for r in data:", "  add(r['date'], r['payee'], r['amount'])", "print(\"end\")")
	imp := func(format string, f ...string) {
		files["i.star"] = code
		args = append(append(args, "import", "--format", format, "--code", "file:i.star", "-a", "Assets:Bank", "-c", "Expenses:Other"), f...)
	}
	switch cmd {
	case "report":
		args = append(args, "report")
	case "report-html":
		args = append(args, "report", "--type", "HTML", "--splitby", "monthly")
	case "report-json":
		args = append(args, "report", "--type", "Json", "--sum=false")
	case "report-ledger":
		args = append(args, "report", "--type", "Ledger", "--sum=false", "--convert=false", "--splitby", "skip")
	case "report-bean":
		args = append(args, "report", "--type", "Beancount")
	case "report-css":
		files["c.css"] = lines("/* a */", "div { color: red }", "/* c */")
		args = append(args, "report", "--type", "HTML", "--htmlcss", "file:c.css")
	case "export-csv", "export-json", "export-ledger", "export-bean":
		args = append(args, "export", "--type", map[string]string{"csv": "CSV", "json": "Json", "ledger": "Ledger", "bean": "Beancount"}[cmd[7:]])
	case "register":
		args = append(args, "register", "Assets:Bank")
	case "register-all":
		args = append(args, "register", "--combined", ".*")
	case "register-csv":
		args = append(args, "register", "--type", "CSV", "Assets.*")
	case "register-json":
		args = append(args, "register", "--type", "JSON", "--combined", "Assets.*")
	case "accts":
		args = append(args, "--all", "accts")
	case "accts-json":
		args = append(args, "accts", "--json")
	case "ccy":
		args = append(args, "ccy")
	case "import-csv":
		files["a.csv"] = g.csv(4*n)
		imp("csv:header=true", "a.csv")
	case "import-two":
		files["a.csv"], files["b.csv"] = g.csv(4*n), g.csv(1+2*n)
		imp("csv:header=true", "a.csv", "b.csv")
	case "import-json":
		files["a.json"] = g.json(n)
		imp("json", "a.json")
	case "import-stdin":
		files["a.csv"] = g.csv(4*n)
		stdin = "a.csv"
		imp("csv:header=true", "-")
	case "generate":
		files["g.star"] = lines("print(\"begin\")", "add('2021-01-02','p',5,account='A',ccy='GBP',caccount='B')", "add('2021-01-03','q',7,account='A',ccy='GBP',caccount='B')", "print(\"end\")")
		args = append(args, "generate", "--code", "file:g.star")
	case "import-mine":
		files["a.csv"], files["i.star"] = g.csv(4*n), code
		args = append(args, "import", "mine", "a.csv")
	case "generate-mine":
		files["g.star"] = lines("for k in [1, 2, 3]:", "  add('2021-01-02','p',5,account='A',ccy='GBP',caccount='B')")
		args = append(args, "generate", "mine")
	case "shell":
		args = append(args, "shell", "--type", "bash")
	case "pages":
		args = append(args, "docs", "--type", "markdown", "--dir", "pages")
	default:
		panic("no command " + cmd)
	}
	text := ""
	if strings.HasSuffix(cmd, "-mine") && conf != "whole" { // they are in the configuration
		return command(cmd[:len(cmd)-5]+map[string]string{"import-mine": "-csv", "generate-mine": ""}[cmd], seed, conf)
	}
	if conf == "whole" && !strings.HasSuffix(cmd, "-mine") && g.Intn(5) == 0 { // one with next to nothing in it
		text = []string{"", "# mine\n", "BaseCCY = \"GBP\"\n"}[g.Intn(3)]
	} else if conf == "whole" {
		text = config
		args = args[2:] // the currency is that of the configuration
		if len(args) > 0 && (args[0] == "report" || args[0] == "export") {
			args = append(args, "mine")
		}
	}
	var a L
	for _, x := range args {
		a = append(a, x)
	}
	return M{"args": a, "files": files, "stdin": stdin, "text": text, "there": []string{"", "xdg", "xdg/goledger"}[g.Intn(3)]}
}

var acts = map[string][]string{
	"in":    {"error", "error", "denied", "short", "cut", "cut", "again", "kill"},
	"out":   {"error", "nospace", "full", "full", "short", "again", "kill", "killafter"},
	"made":  {"error", "nospace", "full", "short", "kill", "killafter"},
	"other": {"error", "kill"},
}

func (g gen) plan() M {
	if g.Intn(12) == 0 {
		return M{"op": "run", "on": "out", "nth": 0, "act": []string{"devfull", "pipe"}[g.Intn(2)]}
	}
	if g.Intn(15) == 0 {
		return M{"op": "run", "on": "in", "nth": g.Intn(4), "act": "missing"}
	}
	on := []string{"in", "in", "in", "out", "out", "made", "other"}[g.Intn(7)]
	nth := g.Intn(400)
	switch g.Intn(6) {
	case 0:
		nth = -1
	case 1, 2:
		nth = g.Intn(8)
	}
	return M{"op": "run", "on": on, "nth": nth, "act": acts[on][g.Intn(len(acts[on]))]}
}

// random commands, each with several faults one after the other
func genFaults(seed int64, tier string, n int) []Scenario {
	g := gen{rand.New(rand.NewSource(seed))}
	var out []Scenario
	for k := 0; k < n; k++ {
		cmd := cmds[k%len(cmds)]
		conf := []string{"none", "whole"}[g.Intn(2)]
		c := command(cmd, g.Int63(), conf)
		c["op"], c["cmd"], c["conf"] = "cmd", cmd, conf
		ev := []M{c}
		for j := 2 + g.Intn(8); j > 0; j-- {
			ev = append(ev, g.plan())
		}
		ev = append(ev, M{"op": "run", "on": "in", "nth": 0, "act": "none"})
		out = append(out, Scenario{ID: fmt.Sprintf("faults-%d-%d", seed, k), Ev: ev})
	}
	return out
}

// random commands while another one runs
func genMeanwhile(seed int64, tier string, n int) []Scenario {
	g := gen{rand.New(rand.NewSource(seed))}
	var out []Scenario
	for k := 0; k < n; k++ {
		cmd := cmds[k%len(cmds)]
		conf := []string{"none", "none", "whole"}[g.Intn(3)]
		c := command(cmd, g.Int63(), conf)
		c["op"], c["cmd"], c["conf"] = "cmd", cmd, conf
		ev := []M{c}
		for j := 1 + g.Intn(3); j > 0; j-- {
			on := []string{"in", "made", "made", "out"}[g.Intn(4)]
			ev = append(ev, M{"op": "run", "on": on, "nth": g.Intn(20), "act": "meanwhile"})
			if g.Intn(3) == 0 {
				ev = append(ev, g.plan())
			}
		}
		ev = append(ev, M{"op": "run", "on": "in", "nth": 0, "act": "none"})
		out = append(out, Scenario{ID: fmt.Sprintf("meanwhile-%d-%d", seed, k), Ev: ev})
	}
	return out
}

// what is changed besides
func genAlone(seed int64, tier string, n int) []Scenario {
	out := genFaults(seed, tier, n)
	for k := range out {
		out[k].ID = "alone" + out[k].ID[6:]
		out[k].Ev[0]["chk"] = "alone"
	}
	return out
}

// every call of one run of a command, each failing in one way
func genPlans(seed int64, tier string, n int) []Scenario {
	g := gen{rand.New(rand.NewSource(seed))}
	var out []Scenario
	for k := 0; k < n; k++ {
		cmd := cmds[k%len(cmds)]
		conf := []string{"none", "whole"}[g.Intn(2)]
		c := command(cmd, g.Int63(), conf)
		c["op"], c["cmd"], c["conf"] = "cmd", cmd, conf
		ev := []M{c}
		for _, on := range []string{"in", "made"} {
			for j := 0; j < 24; j++ {
				ev = append(ev, M{"op": "run", "on": on, "nth": j, "act": acts[on][(j+k)%len(acts[on])]})
				if on == "in" {
					ev[len(ev)-1]["act"] = []string{"error", "denied", "cut"}[(k/len(cmds))%3]
				}
			}
		}
		out = append(out, Scenario{ID: fmt.Sprintf("plans-%d-%d", seed, k), Ev: ev})
	}
	return out
}
