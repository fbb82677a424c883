// hio runs the built program under a tracer that lets one of its calls on
// files fail, be cut short or be its last, and records what it showed before
// it ended, and how.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	. "verifharness/vh"
)

func main() { MainPar(map[string]Gen{"faults": genFaults, "plans": genPlans, "meanwhile": genMeanwhile, "alone": genAlone}, execute) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// a call in the tracer's log
type call struct {
	op, path  string
	fd, flags int
	ret       int
	done      bool
	data      string
}

func (c call) kind() string {
	switch {
	case c.op == "write" && c.fd == 1:
		return "out"
	case c.op == "read", c.op == "open" && c.flags&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) == 0:
		return "in"
	case c.op == "close", c.op == "lseek":
		return "other"
	}
	return "made"
}

type scene struct {
	root  string
	args  []string
	stdin string
	files M
	conf  string
	has   bool   // there is a configuration
	there string // the folder that there is of those it is made in
	// what a run with a whole configuration, and one without, have to show and do
	text  [2]string
	calls [2][]call
	made  map[string]string
}

func execute(sc *Scenario) {
	root, err := os.MkdirTemp(os.Getenv("VWORK"), "io")
	must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	s := &scene{root: root}
	for i := range sc.Ev {
		e := sc.Ev[i]
		Guard(e, func() M {
			if Str(e["op"]) == "cmd" {
				return s.begin(e)
			}
			return s.fault(e)
		})
		if _, bad := e["o"].(M)["panic"]; bad {
			for _, x := range sc.Ev[i+1:] {
				x["o"] = M{"panic": "not run"}
			}
			break
		}
	}
}

func (s *scene) dir() string { return filepath.Join(s.root, "d") }
func (s *scene) confPath() string {
	return filepath.Join(s.dir(), "xdg", "goledger", "goledger.toml")
}

// the files as they are at the start
func (s *scene) reset() {
	must(os.RemoveAll(s.dir()))
	for n, t := range s.files {
		p := filepath.Join(s.dir(), n)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(Str(t)), 0644))
	}
	must(os.MkdirAll(filepath.Join(s.dir(), "pages"), 0755))
	must(os.MkdirAll(filepath.Join(s.dir(), s.there), 0755))
	if s.has {
		must(os.MkdirAll(filepath.Dir(s.confPath()), 0755))
		must(os.WriteFile(s.confPath(), []byte(s.conf), 0644))
	}
}

type result struct {
	ok, told, hung bool
	crash, why     string
	out            string
	calls          []call
}

func (s *scene) run(at int, act string) result { return s.runAs("", at, act, nil) }

// as: distinguishes runs at the same time; between: what happens while it is paused
func (s *scene) runAs(as string, at int, act string, between func()) result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	log := filepath.Join(s.root, "log"+as)
	out := filepath.Join(s.dir(), "out"+as)
	args := s.args
	traced := act != "devfull" && act != "pipe"
	if traced {
		args = append([]string{s.dir(), log, strconv.Itoa(at), act, "--", os.Getenv("VPROG")}, args...)
	}
	prog := os.Getenv("VPROG")
	if traced {
		prog = os.Getenv("VTRACER")
	}
	c := exec.CommandContext(ctx, prog, args...)
	c.Dir = s.dir()
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(s.dir(), "home"), "XDG_CONFIG_HOME=" + filepath.Join(s.dir(), "xdg"), "LANG=en", "TZ=UTC"}
	var se bytes.Buffer
	c.Stderr = &se
	var o *os.File
	var err error
	switch act {
	case "devfull":
		o, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "pipe":
		var r *os.File
		r, o, err = os.Pipe()
		must(err)
		r.Close()
	default:
		o, err = os.OpenFile(out, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	}
	must(err)
	c.Stdout = o
	in := "/dev/null"
	if s.stdin != "" {
		in = filepath.Join(s.dir(), s.stdin)
	}
	f, err := os.Open(in)
	must(err)
	c.Stdin = f
	os.Remove(log + ".paused")
	os.Remove(log + ".go")
	must(c.Start())
	ended := make(chan error, 1)
	go func() { ended <- c.Wait() }()
	for over := false; !over; {
		select {
		case err = <-ended:
			over = true
		case <-time.After(time.Millisecond):
			if _, e := os.Stat(log + ".paused"); between != nil && e == nil {
				between()
				between = nil
				must(os.WriteFile(log+".go", nil, 0644))
			}
		}
		if between == nil && !over {
			err = <-ended
			over = true
		}
	}
	o.Close()
	f.Close()
	r := result{ok: err == nil, hung: ctx.Err() != nil}
	lines := strings.Split(strings.TrimRight(se.String(), "\n"), "\n")
	r.why = lines[len(lines)-1]
	r.told = r.why != "" && !strings.HasPrefix(r.why, " ") && !strings.HasPrefix(r.why, "Use ")
	if strings.Contains(se.String(), "goroutine ") {
		r.crash = lines[0]
	}
	if ws, y := err.(*exec.ExitError); y {
		if w := ws.Sys().(syscall.WaitStatus); w.Signaled() && w.Signal() != syscall.SIGPIPE && w.Signal() != syscall.SIGKILL {
			r.crash = w.Signal().String()
		}
	}
	if !traced {
		return r
	}
	b, err := os.ReadFile(out)
	must(err)
	r.out = string(b)
	b, err = os.ReadFile(log)
	must(err)
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Split(l, "\t")
		if len(f) < 10 {
			continue
		}
		un := func(x string) string { y, _ := hex.DecodeString(x); return string(y) }
		num := func(k int) int { n, _ := strconv.Atoi(f[k]); return n }
		c := call{op: f[1], path: un(f[4]), fd: num(3), flags: num(6), ret: num(2), done: f[2] != "?"}
		if c.kind() == "out" && c.ret > 0 {
			d := un(f[9])
			if len(d) > c.ret {
				d = d[:c.ret]
			}
			c.data = d
		}
		for n := num(0); len(r.calls) < n-1; {
			r.calls = append(r.calls, call{op: "close"})
		}
		if n := num(0); n <= len(r.calls) { // the calls of several threads may end in another order
			r.calls[n-1] = c
		} else {
			r.calls = append(r.calls, c)
		}
	}
	return r
}

// everything it has written under names of its own
func (s *scene) written() map[string]string {
	m := map[string]string{}
	for _, d := range []string{"xdg", "pages"} {
		filepath.Walk(filepath.Join(s.dir(), d), func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				b, err := os.ReadFile(p)
				must(err)
				r, _ := filepath.Rel(s.dir(), p)
				m[r] = string(b)
			}
			return nil
		})
	}
	return m
}

func (s *scene) begin(e M) M {
	x := e
	if _, ok := e["args"]; !ok {
		x = command(Str(e["cmd"]), 7, Str(e["conf"]))
	}
	s.args, s.files, s.stdin, s.conf = nil, x["files"].(M), Str(x["stdin"]), Str(x["text"])
	for _, a := range List(x["args"]) {
		s.args = append(s.args, Str(a))
	}
	s.has, s.there = Str(e["conf"]) == "whole", Str(x["there"])
	s.reset()
	why := ""
	note := func(r result) {
		if !r.ok {
			why = "fails: " + r.why
		}
		if r.crash != "" {
			why = "crash: " + r.crash
		}
	}
	if !s.has {
		r := s.run(0, "none")
		note(r)
		s.text[1], s.calls[1] = r.out, r.calls
	}
	r := s.run(0, "none")
	note(r)
	s.text[0], s.calls[0] = r.out, r.calls
	if s.has {
		s.text[1] = "not there\n" + r.out
	}
	s.made = s.written()
	s.reset()
	return M{"why": why, "whole": len(s.text[0]), "none": len(s.text[1]), "calls": len(s.calls[0])}
}

func (s *scene) seen() string {
	b, err := os.ReadFile(s.confPath())
	if os.IsNotExist(err) {
		return "none"
	}
	must(err)
	rel, _ := filepath.Rel(s.dir(), s.confPath())
	if string(b) == s.made[rel] {
		return "whole"
	}
	return "other"
}

// which call is meant
func (s *scene) pick(e M, calls []call) int {
	act := Str(e["act"])
	var may []int
	for i, c := range calls {
		if c.kind() != Str(e["on"]) {
			continue
		}
		if act == "again" && c.op != "read" && c.op != "write" || act == "cut" && c.op != "read" {
			continue
		}
		may = append(may, i+1)
	}
	if act == "none" || len(may) == 0 {
		return 0
	}
	k := Int(e["nth"])
	if k < 0 {
		return may[len(may)-1]
	}
	return may[k%len(may)]
}

var errnos = map[string]string{"error": "5", "denied": "13", "again": "4", "nospace": "28"}

func (s *scene) fault(e M) M {
	act := Str(e["act"])
	way := 0
	if s.seen() == "none" {
		way = 1
	}
	calls := s.calls[way]
	if calls == nil {
		calls = s.calls[0]
	}
	at := s.pick(e, calls)
	do := act
	if n, ok := errnos[act]; ok {
		do = n
	}
	if (at == 0 && act != "devfull" && act != "pipe") || act == "missing" {
		at, do = 0, "none"
	}
	var lost string
	if act == "missing" {
		var ns []string
		for n := range s.files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		lost = filepath.Join(s.dir(), ns[Int(e["nth"])%len(ns)])
		if s.stdin != "" && strings.HasSuffix(lost, s.stdin) { // the shell would say so
			lost = filepath.Join(s.dir(), "main.ledger")
		}
		must(os.Rename(lost, filepath.Join(s.root, "lost")))
	}
	before := s.all()
	var other M
	var between func()
	if act == "meanwhile" {
		do = "pause"
		if at == 0 {
			do = "none"
		}
		between = func() {
			conf := s.seen()
			r := s.runAs("2", 0, "none", nil)
			other = s.saw(r, 0, "none")
			other["start"] = conf
		}
	}
	r := s.runAs("", at, do, between)
	o := s.saw(r, at, act)
	if other != nil {
		o["other"] = other
	}
	if act == "devfull" || act == "pipe" {
		how := "error"
		if act == "pipe" {
			how = "die"
		}
		if len(s.text[way]) > 0 {
			o["xs"] = L{M{"k": "write", "out": true, "m": 0, "how": how, "w": true, "f": true}}
		}
	}
	changed := L{}
	note := func(how, p string) {
		changed = append(changed, M{"how": how, "area": area(p), "name": p})
	}
	after := s.all()
	for p, t := range before {
		if u, ok := after[p]; !ok {
			note("gone", p)
		} else if u != t {
			note("changed", p)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			note("new", p)
		}
	}
	for i, c := range r.calls {
		p, _ := filepath.Rel(s.dir(), c.path)
		if c.kind() == "made" && c.path != "" && (i+1 != at || act == "none") && c.ret >= 0 {
			note(c.op, p)
		}
	}
	if act == "missing" {
		must(os.RemoveAll(lost))
		must(os.Rename(filepath.Join(s.root, "lost"), lost))
		o["xs"] = append(L{M{"k": "open", "out": false, "m": 0, "how": "error", "w": true, "f": true}}, List(o["xs"])...)
	}
	o["changed"] = changed
	return o
}

// what kind of file it is: where the output goes, the configuration, the manual, or another
func area(p string) string {
	switch {
	case p == "out" || p == "out2":
		return "out"
	case p == "xdg" || strings.HasPrefix(p, "xdg/"):
		return "conf"
	case strings.HasPrefix(p, "pages"):
		return "pages"
	}
	return "other"
}

// everything that is there, but for where the output goes
func (s *scene) all() map[string]string {
	m := map[string]string{}
	filepath.Walk(s.dir(), func(p string, i os.FileInfo, err error) error {
		r, _ := filepath.Rel(s.dir(), p)
		if err != nil || r == "." || area(r) == "out" {
			return nil
		}
		t := i.Mode().String()
		if !i.IsDir() {
			b, err := os.ReadFile(p)
			must(err)
			t += i.ModTime().String() + " " + strconv.Itoa(int(i.Sys().(*syscall.Stat_t).Ino)) + " " + string(b)
		}
		m[r] = t
		return nil
	})
	return m
}

// what was seen of a run
func (s *scene) saw(r result, at int, act string) M {
	xs := L{}
	shown := ""
	for i, c := range r.calls {
		how := ""
		if i+1 == at && act != "none" && act != "meanwhile" {
			switch {
			case act == "kill" || act == "killafter":
				how = "die"
			case act == "short" || act == "again" || act == "cut" && c.ret >= 0:
				how = act
			case c.ret < 0:
				how = "error"
			}
		} else if act == "cut" && i+1 > at && at > 0 && c.op == "read" && c.ret == -5 {
			how = "error"
		} else if act == "full" && i+1 > at && at > 0 && c.ret == -28 {
			how = "error"
		}
		out := c.kind() == "out"
		shown += c.data
		if how == "" && (!out || c.data == "") {
			continue
		}
		w, f := strings.HasPrefix(s.text[0], shown), strings.HasPrefix(s.text[1], shown)
		if n := len(xs) - 1; n >= 0 && how == "" {
			if p := xs[n].(M); p["how"] == "" && p["out"] == true && p["w"] == w && p["f"] == f {
				p["m"] = p["m"].(int) + len(c.data)
				continue
			}
		}
		xs = append(xs, M{"k": c.op, "out": out, "m": len(c.data), "how": how, "w": w, "f": f})
	}
	if shown != r.out { // the tracer does not explain what is there
		panic("the output is not what was written: " + strconv.Itoa(len(shown)) + " " + strconv.Itoa(len(r.out)))
	}
	all := true
	now := s.written()
	for p, t := range s.made {
		all = all && now[p] == t
	}
	return M{"at": at, "ok": r.ok, "told": r.told, "hung": r.hung, "crash": r.crash, "why": r.why, "xs": xs, "files": all, "conf": s.seen()}
}

func keys(m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
