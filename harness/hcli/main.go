// hcli runs the built program: it puts ledgers and configuration files in
// place, executes command lines and records status and output, with the
// machine-readable forms decoded.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifharness/vh"
)

func main() {
	MainPar(map[string]Gen{"screen": genScreen, "term": genTerm, "html": genHtml, "register": genRegister, "records": genRecords, "ledger": genLedger,
		"bean": genBean, "same": genSame, "config": genConfig,
		"map": genThrough("map"), "move": genThrough("move"), "depreciate": genThrough("depreciate"), "combine": genThrough("combine"), "window": genThrough("window"),
		"mapccy": genThrough("mapccy"), "convert": genThrough("convert"), "regbase": genThrough("regbase"), "entries": genThrough("entries"), "sum": genThrough("sum"),
		"tree": genThrough("tree"), "accts": genThrough("accts"), "opstr": genThrough("opstr"), "ops": genThrough("ops")}, execute)
}

const defaultCredit = "^(Income|Trading|Liability|Equity)(:.*)?$"

// setting -> key of the configuration file, as section.key
func configKey(n string) (string, string) {
	sec, key := "", n
	if i := strings.Index(n, "."); i >= 0 {
		sec, key = n[:i], n[i+1:]
	}
	switch n {
	case "ccy":
		key = "baseccy"
	case "register.begin":
		key = "begindate"
	case "register.asof":
		key = "enddate"
	case "register.zero":
		key = "zerostart"
	}
	return sec, key
}

// setting -> command line option
func option(n string) string {
	if n == "report.combineby" {
		return "splitby"
	}
	return n[strings.LastIndex(n, ".")+1:]
}

var bools = map[string]bool{"verbose": true, "colour": true, "all": true, "report.sum": true, "report.convert": true, "report.jsonpretty": true,
	"register.combined": true, "register.asc": true, "register.zero": true, "register.split": true, "register.convert": true,
	"export.jsonpretty": true, "accts.json": true}

func value(n, v string) string {
	if bools[n] && (v == "true" || v == "false") {
		return v
	}
	if _, err := strconv.Atoi(v); err == nil && n == "register.count" {
		return v
	}
	return quoted(v)
}

func quoted(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range v {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func toml(e M) string {
	secs := map[string][]string{}
	set := e["set"].(M)
	for n, v := range set {
		sec, key := configKey(n)
		secs[sec] = append(secs[sec], key+" = "+value(n, Str(v)))
	}
	for n, ops := range e["macros"].(M) {
		var q []string
		for _, x := range List(ops) {
			q = append(q, quoted(Str(x)))
		}
		secs["macros"] = append(secs["macros"], quoted(n)+" = ["+strings.Join(q, ", ")+"]")
	}
	var names []string
	for s := range secs {
		names = append(names, s)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, s := range names {
		if s != "" {
			b.WriteString("[" + s + "]\n")
		}
		sort.Strings(secs[s])
		b.WriteString(strings.Join(secs[s], "\n") + "\n")
	}
	return b.String() + Str(e["bad"])
}

type scene struct {
	root   string
	names  map[string]bool // every name that may occur in the ledgers
	macros []map[string][]string
	credit map[string]bool
	divs   map[string]bool
	blank  uint32 // which of the variables that are not there are set to nothing instead
}

func (s *scene) place(at string) string {
	i := strings.Index(at, ".")
	if i < 0 {
		return filepath.Join(s.root, "conf.toml")
	}
	dir, ext := at[:i], at[i:]
	switch dir {
	case "xdg":
		return filepath.Join(s.root, "xdg", "goledger", "goledger"+ext)
	case "user":
		return filepath.Join(s.root, "home", ".config", "goledger", "goledger"+ext)
	case "home":
		return filepath.Join(s.root, "home", "goledger"+ext)
	case "dot":
		return filepath.Join(s.root, "home", ".goledger"+ext)
	}
	return filepath.Join(s.root, "cwd", "goledger"+ext)
}

func put(p, t string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(t), 0644); err != nil {
		panic(err)
	}
}

func execute(sc *Scenario) {
	root, err := os.MkdirTemp(os.Getenv("VWORK"), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	s := &scene{root: root, names: map[string]bool{}, credit: map[string]bool{defaultCredit: true}, divs: map[string]bool{":": true},
		macros: []map[string][]string{{}, {"macroA": {"book operation A", "book operation B"}}}}
	h := fnv.New32a()
	h.Write([]byte(sc.ID))
	s.blank = h.Sum32() >> 5 & 7
	put(filepath.Join(root, "cwd", ".x"), "")
	put(filepath.Join(root, "home", ".x"), "")
	for i := range sc.Ev {
		e := sc.Ev[i]
		Guard(e, func() M {
			switch Str(e["op"]) {
			case "load":
				for _, f := range List(e["files"]) {
					x := f.(M)
					put(filepath.Join(root, "cwd", Str(x["n"])), strings.ReplaceAll(Str(x["t"]), "@ROOT@", filepath.Join(root, "cwd")))
				}
				for _, n := range Strs(e["names"]) {
					s.names[n] = true
				}
				return M{}
			case "cfg":
				set := e["set"].(M)
				if c, ok := set["report.credit"]; ok {
					s.credit[Str(c)] = true
				}
				if c, ok := set["divider"]; ok {
					s.divs[Str(c)] = true
				}
				m := map[string][]string{}
				for n, ops := range e["macros"].(M) {
					m[n] = Strs(ops)
				}
				s.macros = append(s.macros, m)
				put(s.place(Str(e["at"])), toml(e))
				return M{}
			default:
				return s.run(e)
			}
		})
	}
}

func (s *scene) args(e M) []string {
	form := 0
	if v, ok := e["form"]; ok {
		form = Int(v)
	}
	a := strings.Fields(Str(e["cmd"]))
	cli, _ := e["cli"].(M)
	var ns []string
	for n := range cli {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var opts []string
	for _, n := range ns {
		v := Str(cli[n])
		switch {
		case bools[n] && v == "true" && form&1 == 1:
			opts = append(opts, "--"+option(n))
		case !bools[n] && form&2 == 2:
			opts = append(opts, "--"+option(n), v)
		default:
			opts = append(opts, "--"+option(n)+"="+v)
		}
	}
	ops := Strs(e["ops"])
	if r, ok := e["arg"]; ok && !(Str(e["cmd"]) == "accts" && Str(r) == "^.*$" && form&1 == 1) {
		ops = append(ops, Str(r))
	}
	if form&4 == 4 { // options last
		return append(append(a, ops...), opts...)
	}
	return append(append(a, opts...), ops...)
}

func (s *scene) run(e M) M {
	env, _ := e["env"].(M)
	vars := []string{"PATH=/usr/bin:/bin", "TZ=UTC", "LANG=" + Str(e["lang"])}
	if Bool(env["home"]) {
		vars = append(vars, "HOME="+filepath.Join(s.root, "home"))
	}
	if Bool(env["xdg"]) {
		vars = append(vars, "XDG_CONFIG_HOME="+filepath.Join(s.root, "xdg"))
	}
	if Bool(env["conf"]) {
		vars = append(vars, "GOLEDGER_CONF="+filepath.Join(s.root, "conf.toml"))
	}
	// a variable that is set to nothing is a variable that is not set
	for i, v := range []string{"home:HOME", "xdg:XDG_CONFIG_HOME", "conf:GOLEDGER_CONF"} {
		k, name, _ := strings.Cut(v, ":")
		if !Bool(env[k]) && s.blank>>i&1 == 1 {
			vars = append(vars, name+"=")
		}
	}
	cli, _ := e["cli"].(M)
	if c, ok := cli["report.credit"]; ok {
		s.credit[Str(c)] = true
	}
	if c, ok := cli["divider"]; ok {
		s.divs[Str(c)] = true
	}
	// what regular expressions do to names
	ops := Strs(e["ops"])
	rx := M{}
	all := copyNames(s.names)
	if c, ok := cli["ccy"]; ok {
		all[Str(c)] = true
	}
	base := copyNames(all)
	for _, m := range s.macros {
		ns := copyNames(base)
		for re, t := range RxTables(ops, m, ns) {
			merge(rx, re, t.(M))
		}
		for n := range ns {
			all[n] = true
		}
	}
	e["rx"] = rx
	for n := range copyNames(all) {
		for d := range s.divs {
			if d == "" {
				continue
			}
			ps := strings.Split(n, d)
			for i := range ps {
				all[strings.Join(ps[:i+1], d)] = true
			}
		}
	}
	rm := M{}
	res := map[string]bool{}
	if a, ok := e["arg"]; ok {
		res[Str(a)] = true
	}
	if Str(e["cmd"]) == "report" {
		for c := range s.credit {
			res[c] = true
		}
	}
	for re := range res {
		if m, ok := Matches(re, all); ok {
			rm[re] = m
		}
	}
	e["rm"] = rm
	e["today"] = Today()

	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VPROG"), s.args(e)...)
	c.Dir = filepath.Join(s.root, "cwd")
	c.Env = vars
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	var err error
	if t, ok := e["term"].(M); ok {
		err = onTerminal(c, &so, Int(t["w"]), Int(t["h"]), Bool(t["pager"]), s.root)
	} else {
		err = c.Run()
	}
	o := M{"rc": 0, "err": "", "created": false}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if ctx.Err() != nil {
			o["panic"] = "hang"
		} else if !ok {
			panic(err)
		} else {
			o["rc"] = x.ExitCode()
			if strings.Contains(se.String(), "goroutine ") || x.ExitCode() < 0 {
				o["panic"] = firstLine(se.String())
			}
		}
		o["err"] = firstLine(strings.ReplaceAll(se.String()+so.String(), s.root, "@ROOT@"))
	}
	out := so.String()
	if strings.HasPrefix(out, "Created new configuration file '") {
		o["created"] = true
		out = out[strings.Index(out, "\n")+1:]
	}
	if _, ok := e["term"].(M); ok {
		d, rest, paged := strings.Cut(out, pagerMark)
		o["paged"], o["rest"], out = paged, strings.ToValidUTF8(rest, "\uFFFD"), d
	}
	o["hash"] = fmt.Sprintf("%x", sha256.Sum256([]byte(out)))[:24]
	o["out"] = ""
	if len(out) < 2000000 && Int(o["rc"]) == 0 {
		o["out"] = strings.ToValidUTF8(strings.ReplaceAll(out, s.root, "@ROOT@"), "\uFFFD")
		decode(Str(e["cmd"]), out, o)
	}
	return o
}

func firstLine(t string) string {
	t = strings.TrimSpace(t)
	if i := strings.Index(t, "\n"); i >= 0 {
		t = t[:i]
	}
	if len(t) > 200 {
		t = t[:200]
	}
	return strings.Map(func(r rune) rune {
		if r == '|' || r < 32 {
			return ' '
		}
		return r
	}, t)
}

func copyNames(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func merge(rx M, re string, t M) {
	old, ok := rx[re].(M)
	if !ok {
		rx[re] = t
		return
	}
	for n := range t["m"].(M) {
		old["m"].(M)[n] = true
	}
	for rep, q := range t["r"].(M) {
		o, ok := old["r"].(M)[rep].(M)
		if !ok {
			old["r"].(M)[rep] = q
			continue
		}
		for n, x := range q.(M) {
			o[n] = x
		}
	}
}
