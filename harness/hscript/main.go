// hscript runs `goledger import` and `goledger generate`: it writes the ledger,
// the files, the script and the configuration, and records what came out.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifharness/vh"
)

func main() {
	MainPar(map[string]Gen{"import": genImport, "dedup": genDedup, "reclass": genReclass, "formats": genFormats, "generate": genGenerate}, execute)
}

// ---------------------------------------------------------------- the script

func lit(style int, v string) string {
	q := byte('"')
	if style&1 == 1 {
		q = '\''
	}
	var b strings.Builder
	b.WriteByte(q)
	for _, c := range v {
		switch {
		case c == rune(q) || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\t':
			b.WriteString("\\t")
		case c == '\r':
			b.WriteString("\\r")
		case c < 32 || c == 127:
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

type render struct {
	style, depth int
	b            strings.Builder
	rec          string
}

func (w *render) expr(x M) string {
	switch Str(x["e"]) {
	case "s":
		return lit(w.style, Str(x["v"]))
	case "f", "i":
		return Str(x["v"])
	case "none":
		return "None"
	case "b":
		return strings.Title(Str(x["v"]))
	case "file":
		return "file"
	case "post":
		return "p." + Str(x["f"])
	}
	t := "data"
	if Str(x["e"]) == "rec" {
		t = w.rec
	}
	for _, p := range List(x["path"]) {
		m := p.(M)
		if Str(m["t"]) == "i" {
			t += fmt.Sprintf("[%d]", Int(m["n"]))
		} else {
			t += "[" + lit(w.style, Str(m["v"])) + "]"
		}
	}
	return t
}

func (w *render) line(t string) {
	w.b.WriteString(strings.Repeat("  ", w.depth) + t + "\n")
}

func (w *render) body(b L) {
	w.depth++
	w.stmts(b)
	w.depth--
}

func (w *render) stmts(b L) {
	if len(b) == 0 {
		w.line("pass")
	}
	for _, s := range b {
		w.stmt(s.(M))
	}
}

func (w *render) stmt(s M) {
	switch Str(s["s"]) {
	case "add":
		a := s["a"].(M)
		var args []string
		pos := w.style&2 == 2
		for _, n := range []string{"date", "desc", "amt"} {
			if _, ok := a[n]; !ok {
				pos = false
			} else if pos {
				args = append(args, w.expr(a[n].(M)))
			}
		}
		if !pos {
			args = nil
		}
		var ns []string
		for n := range a {
			if !(pos && (n == "date" || n == "desc" || n == "amt")) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			args = append(args, n+"="+w.expr(a[n].(M)))
		}
		w.line("add(" + strings.Join(args, ", ") + ")")
	case "print":
		w.line("print(" + w.expr(s["x"].(M)) + ")")
	case "show":
		w.line("print(\"@\" + \" \".join(enc(" + w.expr(s["x"].(M)) + ")))")
	case "each":
		old := w.rec
		x := w.expr(s["x"].(M))
		w.rec = fmt.Sprintf("r%d", w.depth)
		w.line("for " + w.rec + " in " + x + ":")
		w.body(List(s["b"]))
		w.rec = old
	case "when":
		w.line("if " + w.expr(s["x"].(M)) + " == " + lit(w.style, Str(s["v"])) + ":")
		w.body(List(s["b"]))
	case "error":
		if w.style&2 == 2 {
			w.line("error(msg=" + lit(w.style, Str(s["v"])) + ")")
		} else {
			w.line("error(" + lit(w.style, Str(s["v"])) + ")")
		}
	case "broken":
		w.line([]string{"def (", "nothing_of_this_name(1)", "x = = 1", "add(", "1 +"}[Int(s["n"])%5])
	case "book":
		t := Str(s["t"])
		i := strings.Index(t, "=")
		args := []string{t[i+1:]}
		if t[:i] == "map" {
			ps := strings.Split(t[i+1:], "/")
			args = ps[1 : len(ps)-1]
		}
		for k := range args {
			args[k] = lit(w.style, args[k])
		}
		w.line("data." + t[:i] + "(" + strings.Join(args, ", ") + ")")
	case "posts":
		if w.style&4 == 4 {
			w.line("for n in range(len(data.transactions)):")
			w.line("  t = data.transactions[n]")
			w.line("  for m in range(len(t)):")
			w.line("    p = t[m]")
		} else {
			w.line("for t in data.transactions:")
			w.line("  for p in t:")
		}
		w.depth++
		w.body(List(s["b"]))
		w.depth--
	}
}

const enc = `def enc(x):
  t = type(x)
  if t == "string":
    return ["s" + ",".join([str(c) for c in x.codepoint_ords()])]
  if t == "float":
    return ["f" + str(x)]
  if t == "int":
    return ["i" + str(x)]
  if t == "bool":
    return ["b" + str(x)]
  if t == "NoneType":
    return ["n"]
  if t == "list":
    out = ["["]
    for y in x:
      out = out + enc(y)
    return out + ["]"]
  if t == "dict":
    out = ["{"]
    for k in sorted(x.keys()):
      out = out + ["k" + enc(k)[0]] + enc(x[k])
    return out + ["}"]
  return ["?" + t]
`

func code(e M) string {
	w := &render{style: Int(e["style"])}
	w.stmts(List(e["script"]))
	t := w.b.String()
	if strings.Contains(t, "enc(") {
		t = enc + t
	}
	return t
}

func shown(line string) L {
	out := L{}
	codes := func(t string) string {
		var b strings.Builder
		if t != "" {
			for _, c := range strings.Split(t, ",") {
				n, err := strconv.Atoi(c)
				if err != nil {
					return "?" + t
				}
				b.WriteRune(rune(n))
			}
		}
		return b.String()
	}
	for _, t := range strings.Split(line, " ") {
		switch {
		case t == "":
		case strings.HasPrefix(t, "ks"):
			out = append(out, "k"+codes(t[2:]))
		case t[0] == 's':
			out = append(out, "s"+codes(t[1:]))
		case t[0] == 'f':
			f, err := strconv.ParseFloat(t[1:], 64)
			v := new(big.Rat)
			if err != nil || v.SetFloat64(f) == nil {
				out = append(out, "?"+t)
			} else {
				out = append(out, "f"+v.String())
			}
		case t[0] == 'i':
			out = append(out, t+"")
		case t[0] == 'b':
			out = append(out, strings.ToLower(t))
		default:
			out = append(out, t)
		}
	}
	return out
}

// ---------------------------------------------------------------- running

type scene struct {
	root, cwd string
	names     map[string]bool
	k         int
}

func put(p, t string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(t), 0644); err != nil {
		panic(err)
	}
}

func execute(sc *Scenario) {
	root, err := os.MkdirTemp(os.Getenv("VWORK"), "scr")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	s := &scene{root: root, cwd: filepath.Join(root, "cwd"), names: map[string]bool{}}
	put(filepath.Join(s.cwd, ".x"), "")
	for i := range sc.Ev {
		e := sc.Ev[i]
		Guard(e, func() M {
			if Str(e["op"]) == "load" {
				for _, f := range List(e["files"]) {
					x := f.(M)
					put(filepath.Join(s.cwd, Str(x["n"])), Str(x["t"]))
				}
				for _, n := range Strs(e["names"]) {
					s.names[n] = true
				}
				return M{}
			}
			return s.run(e)
		})
	}
}

func quoted(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range v {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32 || c == 127:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func flag(name string, v bool, style int) string {
	if v && style&1 == 1 {
		return "--" + name
	}
	return fmt.Sprintf("--%s=%v", name, v)
}

// the command line, and the configuration it needs
func (s *scene) command(e M) ([]string, string) {
	s.k++
	style := Int(e["style"])
	df := e["df"].(M)
	src := code(e)
	if Bool(e["codefile"]) {
		n := fmt.Sprintf("code%d.star", s.k)
		put(filepath.Join(s.cwd, n), src)
		src = "file:" + n
	}
	conf := "ledger = \"main.ledger\"\n"
	var args []string
	if style&8 == 8 {
		conf = ""
		args = append(args, "--ledger", "main.ledger")
	}
	gen := Str(e["op"]) == "generate"
	def := Bool(e["def"])
	base := Str(df["ccy"])
	if def && !gen && style&16 == 16 {
		base = "base"
	}
	if style&32 == 32 {
		conf += "baseccy = " + quoted(base) + "\n"
	} else {
		args = append(args, "--ccy="+base)
	}
	f, _ := e["fmt"].(M)
	params, _ := f["params"].(M)
	over := func(bit int) bool { return style&bit != 0 } // the configuration says otherwise
	if gen {
		if def {
			conf += "[generate.mine]\ndescription = \"x\"\ncode = " + quoted(src) + "\n" + fmt.Sprintf("dedup = %v\n", Bool(e["dedup"]) != over(64))
			args = append(args, "generate", "mine")
			if over(64) {
				args = append(args, flag("dedup", Bool(e["dedup"]), style))
			}
		} else {
			args = append(args, "generate", "--code", src)
			if !Bool(e["dedup"]) || over(64) {
				args = append(args, flag("dedup", Bool(e["dedup"]), style))
			}
		}
		return args, conf
	}
	var files []string
	for _, x := range List(e["files"]) {
		files = append(files, Str(x.(M)["n"]))
	}
	if def {
		conf += "[importdefs.mine]\nconfigtype = " + quoted(Str(f["type"])) + "\ncode = " + quoted(src) + "\n"
		args = append(args, "import", "mine")
		set := func(key, opt, v string, bit int) {
			if over(bit) {
				conf += key + " = " + quoted("Other") + "\n"
				args = append(args, "--"+opt+"="+v)
			} else {
				conf += key + " = " + quoted(v) + "\n"
			}
		}
		set("account", "acct", Str(df["account"]), 128)
		set("counteraccount", "cacct", Str(df["caccount"]), 256)
		setb := func(key, opt string, v bool, bit int) {
			conf += fmt.Sprintf("%s = %v\n", key, v != over(bit))
			if over(bit) {
				args = append(args, flag(opt, v, style))
			}
		}
		setb("dedup", "dedup", Bool(e["dedup"]), 64)
		setb("reclassify", "reclassify", Bool(e["reclass"]), 512)
		if base != Str(df["ccy"]) {
			conf += "ccy = " + quoted(Str(df["ccy"])) + "\n"
		}
		if len(params) > 0 {
			conf += "[importdefs.mine.params]\n"
			var ps []string
			for k, v := range params {
				ps = append(ps, k+" = "+quoted(Str(v))+"\n")
			}
			sort.Strings(ps)
			conf += strings.Join(ps, "")
		}
		return append(args, files...), conf
	}
	format := Str(f["type"])
	var ps []string
	for k, v := range params {
		if k == "header" && Str(v) == "true" && style&1 == 1 {
			ps = append(ps, k)
		} else {
			ps = append(ps, k+"="+Str(v))
		}
	}
	sort.Strings(ps)
	if len(ps) > 0 {
		format += ":" + strings.Join(ps, ",")
	}
	args = append(args, "import", "--code", src, "--format", format)
	if style&128 == 128 {
		args = append(args, "-a", Str(df["account"]), "-c", Str(df["caccount"]))
	} else {
		args = append(args, "--acct="+Str(df["account"]), "--cacct="+Str(df["caccount"]))
	}
	if !Bool(e["dedup"]) || over(64) {
		args = append(args, flag("dedup", Bool(e["dedup"]), style))
	}
	if !Bool(e["reclass"]) || over(512) {
		args = append(args, flag("reclassify", Bool(e["reclass"]), style))
	}
	return append(args, files...), conf
}

func (s *scene) run(e M) M {
	var stdin string
	for _, x := range List(e["files"]) {
		f := x.(M)
		if Str(f["n"]) == "-" {
			stdin = Str(f["t"])
		} else {
			put(filepath.Join(s.cwd, Str(f["n"])), Str(f["t"]))
		}
	}
	var maps []string
	var find func(b L)
	find = func(b L) {
		for _, x := range b {
			m := x.(M)
			if t := Str(m["t"]); strings.HasPrefix(t, "map=") {
				maps = append(maps, t)
			}
			if b, ok := m["b"]; ok {
				find(List(b))
			}
		}
	}
	find(List(e["script"]))
	e["rx"] = RxTables(maps, nil, copyNames(s.names))
	e["today"] = Today()
	args, conf := s.command(e)
	cf := filepath.Join(s.root, "conf.toml")
	put(cf, conf)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VPROG"), args...)
	c.Dir = s.cwd
	c.Env = []string{"PATH=/usr/bin:/bin", "TZ=UTC", "LANG=" + Str(e["lang"]), "HOME=" + s.root, "GOLEDGER_CONF=" + cf}
	c.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	o := M{"rc": 0, "err": "", "out": "", "shown": L{}}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if ctx.Err() != nil {
			o["panic"] = "hang"
		} else if !ok {
			panic(err)
		} else {
			o["rc"] = x.ExitCode()
			if strings.Contains(se.String(), "goroutine ") || x.ExitCode() < 0 {
				o["panic"] = firstLine(se.String())
			}
		}
		t := strings.ReplaceAll(se.String(), s.root, "@ROOT@")
		if len(t) > 1500 {
			t = t[len(t)-1500:]
		}
		o["err"] = strings.ToValidUTF8(strings.ReplaceAll(t, "|", " "), "?")
		return o
	}
	out := strings.ToValidUTF8(strings.ReplaceAll(so.String(), s.root, "@ROOT@"), "\uFFFD")
	if len(out) < 2000000 {
		o["out"] = out
	}
	vals := L{}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "; @") {
			vals = append(vals, shown(l[3:]))
		}
	}
	o["shown"] = vals
	return o
}

func firstLine(t string) string {
	t = strings.TrimSpace(t)
	if i := strings.Index(t, "\n"); i >= 0 {
		t = t[:i]
	}
	if len(t) > 200 {
		t = t[:200]
	}
	return strings.Map(func(r rune) rune {
		if r == '|' || r < 32 {
			return ' '
		}
		return r
	}, t)
}

func copyNames(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}
