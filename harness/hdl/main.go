// hdl runs `goledger download` against a bank of its own (bank.go) and records
// what the state file holds afterwards; under vtrace it also records what the
// program does to files, and lets such calls fail.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verifharness/vh"
)

func main() {
	MainN(128, map[string]Gen{"mix": genMix, "monzo": genMonzo, "starling": genStarling, "nordigen": genNordigen, "login": genLogin, "save": genSave}, execute)
}

type scene struct {
	root, dir, file string // file: the name given to the program
	kind, form      string
	b               *bank
	kept            []byte // the state file before it was spoilt
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func execute(sc *Scenario) {
	root, err := os.MkdirTemp(os.Getenv("VWORK"), "dl")
	must(err)
	defer os.RemoveAll(root)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	s := &scene{root: root, b: newBank()}
	defer s.b.close()
	for i := range sc.Ev {
		e := sc.Ev[i]
		Guard(e, func() M {
			switch Str(e["op"]) {
			case "file":
				return s.place(e)
			case "bank":
				s.b.set(e)
				return M{}
			case "spoil":
				return s.spoil(e)
			case "login":
				return s.login(e)
			case "init", "sync":
				return s.sync(e)
			}
			return s.save(e)
		})
		if _, bad := e["o"].(M)["panic"]; bad {
			for _, x := range sc.Ev[i+1:] {
				x["o"] = M{"panic": "not run"}
			}
			break
		}
	}
}

// ---------------------------------------------------------------- state file

func (s *scene) place(e M) M {
	s.kind, s.form = Str(e["kind"]), Str(e["form"])
	s.dir = filepath.Join(s.root, "d")
	name := "state.json"
	if s.form == "gz" {
		name += ".gz"
	}
	real := filepath.Join(s.dir, name)
	s.file = real
	must(os.MkdirAll(s.dir, 0755))
	switch Str(e["at"]) {
	case "deep": // in directories that do not exist yet
		s.file = filepath.Join(s.dir, "x", "y", name)
		real = s.file
	case "link":
		must(os.MkdirAll(filepath.Join(s.dir, "real"), 0755))
		real = filepath.Join(s.dir, "real", "file"+name[5:])
		must(os.Symlink(real, s.file))
	}
	var x M
	switch Str(e["tok"]) {
	case "good":
		x = M{"token": M{"access_token": "tok0", "token_type": "Bearer", "refresh_token": "ref0", "expiry": time.Now().Add(24 * time.Hour).Format(time.RFC3339Nano)}, "transactions": nil, "accounts": nil}
	case "old":
		x = M{"token": M{"access_token": "tok0", "token_type": "Bearer", "refresh_token": "ref0", "expiry": time.Now().Add(-24 * time.Hour).Format(time.RFC3339Nano)}, "transactions": M{}, "accounts": M{}}
	case "inst":
		x = M{"Institution": s.b.institution(0), "Requisition": s.b.thing("requisition", "", 0, 0, M{"id": "req1", "link": "x", "accounts": L{}})}
	}
	if x != nil {
		must(os.MkdirAll(filepath.Dir(real), 0755))
		s.write(real, jsonOf(x))
	}
	return s.look()
}

func (s *scene) write(p string, b []byte) {
	if s.form == "gz" {
		var w bytes.Buffer
		z := gzip.NewWriter(&w)
		z.Write(b)
		z.Close()
		b = w.Bytes()
	}
	must(os.WriteFile(p, b, 0644))
}

// what the state file holds: [key, version, time, group] of every thing
func (s *scene) look() M {
	o := M{"state": L{}, "token": 0, "file": "none"}
	b, err := os.ReadFile(s.file)
	if os.IsNotExist(err) {
		return o
	}
	o["file"] = "bad"
	if err == nil && s.form == "gz" {
		var z *gzip.Reader
		if z, err = gzip.NewReader(bytes.NewReader(b)); err == nil {
			b, err = io.ReadAll(z)
		}
	}
	var x M
	if err == nil {
		d := json.NewDecoder(bytes.NewReader(b))
		if err = d.Decode(&x); err == nil {
			if _, err2 := d.Token(); err2 != io.EOF {
				err = fmt.Errorf("more after the end")
			}
		}
	}
	if err != nil {
		return o
	}
	o["file"] = "ok"
	var l L
	s.b.mu.Lock()
	defer s.b.mu.Unlock()
	add := func(key string, y interface{}) {
		v := s.b.version(key, y)
		l = append(l, L{key, v.v, v.t, v.g})
	}
	each := func(y interface{}, f func(k string, z interface{})) {
		if y == nil {
			return
		}
		m, ok := y.(M)
		if !ok {
			o["file"] = "bad"
			return
		}
		for _, k := range keys(m) {
			f(k, m[k])
		}
	}
	tok := func(y interface{}, field string) {
		if m, ok := y.(M); ok {
			t, _ := m[field].(string)
			n, err := strconv.Atoi(strings.TrimPrefix(t, "tok"))
			if err != nil {
				n = -1
			}
			o["token"] = n + 1
		}
	}
	switch s.kind {
	case "monzo":
		each(x["accounts"], func(k string, z interface{}) { add("account/"+k, z) })
		each(x["transactions"], func(k string, z interface{}) { add("transaction/"+k, z) })
		tok(x["token"], "access_token")
	case "starling":
		each(x["accounts"], func(k string, z interface{}) {
			m, ok := z.(M)
			if !ok {
				o["file"] = "bad"
				return
			}
			add("account/"+k, m["account"])
			add("identifiers/"+k, m["identifiers"])
			add("spaces/"+k, m["spaces"])
			each(m["feeditems"], func(c string, f interface{}) {
				each(f, func(id string, it interface{}) { add("item/"+k+"/"+c+"/"+id, it) })
			})
		})
		if x["Payees"] != nil {
			add("payees", x["Payees"])
		}
	case "nordigen":
		if x["Institution"] != nil {
			add("institution", x["Institution"])
		}
		if x["Requisition"] != nil {
			add("requisition", x["Requisition"])
		}
		each(x["Accounts"], func(k string, z interface{}) {
			m, ok := z.(M)
			if !ok {
				o["file"] = "bad"
				return
			}
			add("basic/"+k, m["Basic"])
			add("details/"+k, m["Details"])
			each(m["Transactions"], func(id string, it interface{}) { add("transaction/"+k+"/"+id, it) })
		})
		tok(x["Token"], "Access")
	}
	if l != nil {
		o["state"] = l
	}
	return o
}

// damage the state file, or put it back
func (s *scene) spoil(e M) M {
	how := Str(e["how"])
	if how == "undo" {
		must(os.WriteFile(s.file, s.kept, 0644))
		return s.look()
	}
	b, err := os.ReadFile(s.file)
	must(err)
	s.kept = b
	switch how {
	case "cut":
		b = b[:len(b)*2/3]
	case "empty":
		b = nil
	case "junk":
		b = []byte("\x00\x01{not json")
	case "tail":
		b = append(append([]byte{}, b[:len(b)-3]...), []byte("\"]]")...)
	}
	must(os.WriteFile(s.file, b, 0644))
	return M{}
}

// ------------------------------------------------------------------- running

func (s *scene) command(e M) []string {
	a := []string{"download", s.kind}
	switch s.kind {
	case "monzo":
		a = append(a, "--clientid", "cid", "--clientsecret", "sec")
	case "starling":
		a = append(a, "--personalAccessToken", "personal")
		if Bool(e["all"]) {
			a = append(a, "--alldata")
		}
	}
	return append(a, s.file)
}

func (s *scene) env() []string {
	f, _ := authority()
	home := filepath.Join(s.root, "home")
	must(os.MkdirAll(home, 0755))
	p := "http://" + s.b.ln.Addr().String()
	return []string{"PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8", "HOME=" + home, "HTTPS_PROXY=" + p, "HTTP_PROXY=" + p, "NO_PROXY=localhost",
		"SSL_CERT_FILE=" + f, "SSL_CERT_DIR=" + home}
}

// most requests of one run: far more than any of the banks here needs
const most = 250

func (s *scene) run(args []string, stdin string, fault M) M {
	s.b.start(fault)
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Dir = s.root
	c.Env = s.env()
	c.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	must(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	hung := false
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
			s.b.mu.Lock()
			if s.b.nreq > most && !hung {
				hung = true
				c.Process.Kill()
			}
			s.b.mu.Unlock()
		}
	}
	if ctx.Err() != nil {
		hung = true
	}
	o := M{"ok": err == nil, "hung": hung, "crash": "", "why": ""}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		if x.ExitCode() == 99 {
			panic("vtrace: " + se.String())
		}
		o["rc"] = x.ExitCode()
		if strings.Contains(se.String(), "goroutine ") {
			o["crash"] = firstLine(se.String())
		}
		o["why"] = firstLine(strings.ReplaceAll(se.String(), s.root, "@ROOT@"))
	}
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%v\n%s%s%v\n", args, so.String(), se.String(), s.b.odd)
	}
	s.b.mu.Lock()
	o["hit"], o["soft"], o["reqs"], o["issued"] = s.b.hit, s.b.soft, s.b.nreq, s.b.issued+1
	o["odd"] = ""
	if len(s.b.odd) > 0 {
		o["odd"] = s.b.odd[0]
	}
	s.b.mu.Unlock()
	return o
}

func firstLine(t string) string {
	for _, l := range strings.Split(t, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			if len(l) > 200 {
				l = l[:200]
			}
			return strings.ToValidUTF8(l, "?")
		}
	}
	return "?"
}

func (s *scene) bytes() string {
	b, err := os.ReadFile(s.file)
	if err != nil {
		return "-"
	}
	return string(b)
}

func (s *scene) sync(e M) M {
	before := s.bytes()
	stdin := ""
	if Str(e["op"]) == "init" {
		stdin = Str(e["country"]) + "\n" + Str(e["pick"]) + "\n"
	}
	fault, _ := e["fault"].(M)
	o := s.run(append([]string{os.Getenv("VPROG")}, s.command(e)...), stdin, fault)
	for k, v := range s.look() {
		o[k] = v
	}
	o["same"] = before == s.bytes()
	return o
}

// the Monzo login: the program waits for the browser to come back
func (s *scene) login(e M) M {
	fault, _ := e["fault"].(M)
	s.b.start(fault)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	port := ln.Addr().(*net.TCPAddr).Port
	ln.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	a := append([]string{"download", "monzo", "--clientid", "cid", "--clientsecret", "sec", "--port", strconv.Itoa(port)}, s.file)
	c := exec.CommandContext(ctx, os.Getenv("VPROG"), a...)
	c.Dir, c.Env = s.root, s.env()
	var se bytes.Buffer
	c.Stderr = &se
	so, err := c.StdoutPipe()
	must(err)
	must(c.Start())
	back := make(chan string, 1)
	go func() {
		r := bufio.NewReader(so)
		for {
			l, err := r.ReadString('\n')
			if i := strings.Index(l, "https://auth.monzo.com/"); i >= 0 {
				back <- strings.TrimSpace(l[i:])
			}
			if err != nil {
				close(back)
				return
			}
		}
	}()
	asked := false
	if l, ok := <-back; ok {
		u, err := url.Parse(l)
		must(err)
		asked = u.Query().Get("redirect_uri") == fmt.Sprintf("http://localhost:%d/", port) && u.Query().Get("client_id") == "cid"
		v := url.Values{}
		switch Str(e["answer"]) {
		case "right":
			v.Set("code", "c0de")
			v.Set("state", u.Query().Get("state"))
		case "forged":
			v.Set("code", "c0de")
			v.Set("state", u.Query().Get("state")+"1")
		case "nocode":
			v.Set("state", u.Query().Get("state"))
		}
		for k := 0; k < 200; k++ {
			resp, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/?%s", port, v.Encode()))
			if err == nil {
				resp.Body.Close()
				break
			}
			if !strings.Contains(err.Error(), "refused") {
				break // the program closes the connection with itself
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	err = c.Wait()
	o := M{"ok": err == nil, "asked": asked, "hung": ctx.Err() != nil, "crash": "", "why": firstLine(se.String())}
	if strings.Contains(se.String(), "goroutine ") {
		o["crash"] = firstLine(se.String())
	}
	s.b.mu.Lock()
	o["issued"], o["hit"] = s.b.issued+1, s.b.hit
	s.b.mu.Unlock()
	for k, v := range s.look() {
		o[k] = v
	}
	return o
}

// -------------------------------------------------------------------- saving

// a run under vtrace: e.at, e.act say which call on files fails, and how
func (s *scene) save(e M) M {
	before := s.bytes()
	at, err := os.Lstat(s.file)
	link := err == nil && at.Mode()&os.ModeSymlink != 0
	real := s.file
	if r, err := filepath.EvalSymlinks(s.file); err == nil {
		real = r
	} else if link {
		real, _ = os.Readlink(s.file)
	}
	log := filepath.Join(s.root, "log")
	args := append([]string{os.Getenv("VTRACER"), s.dir, log, strconv.Itoa(Int(e["n"])), Str(e["act"]), "--", os.Getenv("VPROG")}, s.command(e)...)
	issued := s.b.issued
	o := s.run(args, "", nil)
	o["refreshed"] = s.b.issued > issued
	for k, v := range s.look() {
		o[k] = v
	}
	after := s.bytes()
	o["same"] = before == after
	o["left"] = s.left()
	name := func(p string) string { r, _ := filepath.Rel(s.dir, p); return r }
	o["path"], o["real"], o["size"], o["was"], o["wassize"] = name(s.file), name(real), len(after), before != "-", len(before)
	ops := L{}
	b, err := os.ReadFile(log)
	must(err)
	pos := map[string]int{} // open file -> offset
	size := map[string]int{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Split(l, "\t")
		if len(f) < 10 {
			continue
		}
		un := func(x string) string { y, _ := hex.DecodeString(x); return string(y) }
		p, p2 := un(f[4]), un(f[5])
		num := func(k int) int { n, _ := strconv.Atoi(f[k]); return n }
		ret, rok := num(2), f[2] != "?"
		x := M{"k": f[1], "ok": rok && ret >= 0, "done": rok, "fd": num(3), "p": name(p), "q": "", "n": 0, "off": 0, "good": false, "creat": false, "trunc": false, "excl": false, "app": false, "w": false}
		if p == "" {
			x["p"] = ""
		}
		fd := f[3]
		switch f[1] {
		case "open":
			fl := num(6)
			x["creat"], x["trunc"], x["excl"], x["app"], x["w"] = fl&0100 != 0, fl&01000 != 0, fl&0200 != 0, fl&02000 != 0, fl&3 != 0
			if ret >= 0 {
				pos[fd] = 0
				if _, ok := size[fd]; fl&02000 != 0 && ok {
					pos[fd] = size[fd]
				}
			}
		case "write":
			off := num(7)
			seq := off < 0
			if seq {
				off = pos[fd]
			}
			if ret > 0 {
				d := un(f[9])
				if len(d) > ret {
					d = d[:ret]
				}
				x["off"], x["n"] = off, len(d)
				x["good"] = off+len(d) <= len(after) && after[off:off+len(d)] == d
				if seq {
					pos[fd] = off + len(d)
				}
			}
		case "lseek":
			if ret >= 0 {
				pos[fd] = ret
			}
		case "ftruncate", "truncate":
			x["n"] = num(8)
		case "rename", "link":
			x["q"] = name(p2)
		case "symlink":
			x["q"] = p2
		case "read":
			x["n"] = ret
		}
		if f[1] != "read" || !rok || ret < 0 { // that something was read says nothing
			ops = append(ops, x)
		}
	}
	o["ops"] = ops
	o["calls"] = len(strings.Split(strings.TrimSpace(string(b)), "\n"))
	return o
}

// files beside the state file
func (s *scene) left() L {
	l := L{}
	filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			r, _ := filepath.Rel(s.dir, p)
			l = append(l, r)
		}
		return nil
	})
	sort.Slice(l, func(i, j int) bool { return Str(l[i]) < Str(l[j]) })
	return l
}

func keys(m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
