package main

// A bank on the other end of the line: a proxy that answers every TLS
// connection itself, with certificates of an authority made for the run.

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	. "verifharness/vh"
)

var hosts = []string{"api.monzo.com", "api.starlingbank.com", "ob.nordigen.com"}

var ca struct {
	once sync.Once
	file string
	conf *tls.Config
}

func authority() (string, *tls.Config) {
	ca.once.Do(func() {
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "scratch"}, NotBefore: time.Now().Add(-48 * time.Hour),
			NotAfter: time.Now().Add(480 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
		der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
		must(err)
		ca.file = filepath.Join(os.Getenv("VWORK"), "ca.pem")
		must(os.WriteFile(ca.file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
		lk, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		lt := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "bank"}, NotBefore: t.NotBefore, NotAfter: t.NotAfter,
			DNSNames: hosts, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		ldr, err := x509.CreateCertificate(crand.Reader, lt, t, &lk.PublicKey, key)
		must(err)
		ca.conf = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{ldr}, PrivateKey: lk}}, NextProtos: []string{"http/1.1"}}
	})
	return ca.file, ca.conf
}

type served struct {
	v, t int
	g    string
	x    interface{}
}

type bank struct {
	mu     sync.Mutex
	ln     net.Listener
	base   time.Time
	ev     M                   // the state of the bank
	reg    map[string][]served // every version of everything it ever had
	tokens map[string]bool
	issued int
	// of the present run
	nreq  int
	fault M
	hit   bool
	soft  string
	odd   []string
	conns map[net.Conn]bool
}

func newBank() *bank {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &bank{ln: ln, base: time.Now().UTC().Truncate(time.Second), reg: map[string][]served{}, tokens: map[string]bool{"tok0": true, "personal": true}, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			b.conns[c] = true
			b.mu.Unlock()
			go b.serve(c)
		}
	}()
	return b
}

func (b *bank) close() {
	b.ln.Close()
	b.mu.Lock()
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
}

func (b *bank) start(fault M) {
	b.mu.Lock()
	b.nreq, b.fault, b.hit, b.soft, b.odd = 0, fault, false, "", nil
	b.mu.Unlock()
}

func (b *bank) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil || req.Method != "CONNECT" {
		fmt.Fprintf(c, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
		return
	}
	host := strings.TrimSuffix(req.Host, ":443")
	fmt.Fprintf(c, "HTTP/1.1 200 OK\r\n\r\n")
	_, conf := authority()
	tc := tls.Server(c, conf)
	defer tc.Close()
	tr := bufio.NewReader(tc)
	for {
		req, err := http.ReadRequest(tr)
		if err != nil {
			return
		}
		req.ParseForm() // reads the body
		status, body, cut := b.answer(host, req)
		var w bytes.Buffer
		n := len(body)
		if cut {
			n += 10
		}
		fmt.Fprintf(&w, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", status, http.StatusText(status), n)
		w.Write(body)
		if _, err := tc.Write(w.Bytes()); err != nil || cut {
			return
		}
	}
}

// failing: the present request will not be answered properly
func (b *bank) failing() bool {
	return b.fault != nil && Int(b.fault["n"]) == b.nreq && strings.Contains(" 500 429 202 204 403 garbage html cut ", " "+Str(b.fault["kind"])+" ")
}

func jsonOf(x interface{}) []byte {
	var w bytes.Buffer
	e := json.NewEncoder(&w)
	e.SetEscapeHTML(false)
	if err := e.Encode(x); err != nil {
		panic(err)
	}
	return w.Bytes()
}

func (b *bank) answer(host string, req *http.Request) (int, []byte, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.nreq++
	status, x := b.page(host, req)
	body := jsonOf(x)
	if b.failing() && req.URL.Path == "/oauth2/token" { // asked twice, in two ways
		defer func() { b.fault = M{"n": b.nreq + 1, "kind": Str(b.fault["kind"])} }()
	}
	if b.fault == nil || Int(b.fault["n"]) != b.nreq || status != 200 && status != 201 {
		return status, body, false
	}
	kind := Str(b.fault["kind"])
	fail := func(s int, t string) (int, []byte, bool) { b.hit = true; return s, []byte(t), false }
	switch kind {
	case "500":
		return fail(500, `{"error":"internal"}`)
	case "429":
		return fail(429, `{"error":"slow down"}`)
	case "202": // accepted, but nothing done yet
		return fail(202, `{}`)
	case "204":
		return fail(204, "")
	case "403":
		if strings.HasPrefix(req.URL.Path, "/transactions") && req.Form.Get("since") == "" {
			b.soft = req.Form.Get("account_id")
		}
		return fail(403, `{"error":"forbidden"}`)
	case "garbage":
		return fail(status, string(body[:len(body)/2]))
	case "html":
		return fail(status, "<html>gateway</html>")
	case "cut":
		b.hit = true
		return status, body, true
	case "noid", "numid":
		if damage(x, kind) {
			b.hit = true
			return status, jsonOf(x), false
		}
	case "noauth":
		if strings.HasSuffix(req.URL.Path, "/whoami") {
			return fail(200, `{"authenticated":false,"client_id":"c","user_id":"u"}`)
		}
	}
	return status, body, false
}

// take the identity from the last of the things in a list
func damage(x interface{}, kind string) bool {
	if m, ok := x.(M); ok {
		for _, k := range []string{"accounts", "transactions", "feedItems", "booked"} {
			if y, ok := m[k]; ok && damage(y, kind) {
				return true
			}
		}
		for _, k := range []string{"savingsGoals"} {
			if y, ok := m[k]; ok && damage(y, kind) {
				return true
			}
		}
		return false
	}
	l, ok := x.(L)
	if !ok || len(l) == 0 {
		return false
	}
	m, ok := l[len(l)-1].(M)
	if !ok {
		return false
	}
	for _, k := range []string{"id", "accountUid", "feedItemUid", "transactionId", "savingsGoalUid"} {
		if _, ok := m[k]; ok {
			n := Clone(m)
			if kind == "noid" {
				delete(n, k)
			} else {
				n[k] = 17
			}
			l[len(l)-1] = n
			return true
		}
	}
	return false
}

func (b *bank) time(t int, ms int) string {
	return b.base.Add(time.Duration(t)*time.Second + time.Duration(ms)*time.Millisecond).Format("2006-01-02T15:04:05.000Z")
}

// what the bank tells about a thing, in one of its versions: the same always
func (b *bank) thing(key, group string, v, t int, fields M) M {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", key, v)
	r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	m := M{"rev": v}
	texts := []string{"", "plain", "a \"b\" \\ c", "<b>&amp;</b>", "Zoë Ünal £3", "日本", "line\nbreak\ttab", "\u2028\u2029", "😀", "null"}
	nums := []interface{}{0, -1, 12.34, 0.1, 9007199254740991, -1234567, 1e-7, 1e21, 100}
	for i := r.Intn(4); i >= 0; i-- {
		m[Pick(r, "notes", "amount", "Local Currency", "meta", "é", "x")] = []interface{}{texts[r.Intn(len(texts))], nums[r.Intn(len(nums))], nil, true, L{}, M{},
			L{1, "a", nil}, M{"k": M{"z": texts[r.Intn(len(texts))], "a": nums[r.Intn(len(nums))]}}, M{"id": "other"}}[r.Intn(9)]
	}
	for k, x := range fields {
		m[k] = x
	}
	b.note(key, group, v, t, m)
	return m
}

func (b *bank) note(key, group string, v, t int, x interface{}) {
	n := norm(x)
	for _, s := range b.reg[key] {
		if s.v == v {
			if !reflect.DeepEqual(s.x, n) {
				panic("one version of " + key + " with two contents")
			}
			return
		}
	}
	b.reg[key] = append(b.reg[key], served{v, t, group, n})
}

// as encoding/json reads it back
func norm(x interface{}) interface{} {
	var y interface{}
	if err := json.Unmarshal(jsonOf(x), &y); err != nil {
		panic(err)
	}
	return y
}

// the version of a thing that is in the state, if it is one the bank had
func (b *bank) version(key string, x interface{}) served {
	for _, s := range b.reg[key] {
		if reflect.DeepEqual(s.x, x) {
			return s
		}
	}
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %s\n", key, jsonOf(x))
	}
	return served{v: -1}
}

// ---------------------------------------------------------------- contents

func (b *bank) monzoAccount(a M) M {
	id := Str(a["id"])
	return b.thing("account/"+id, "", Int(a["v"]), 0, M{"id": id, "description": "user_" + id})
}

type item struct {
	id         string
	t, v, late int
	x          M
}

func items(l interface{}) []item {
	var out []item
	for _, y := range List(l) {
		z := y.(L)
		it := item{id: Str(z[0]), t: Int(z[1]), v: Int(z[2])}
		if len(z) > 3 {
			it.late = Int(z[3])
		}
		out = append(out, it)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].t < out[j].t })
	return out
}

func (b *bank) monzoItems(a M) []item {
	its := items(a["items"])
	n := 0
	for i := range its {
		if i > 0 && its[i].t == its[i-1].t {
			n++
		} else {
			n = 0
		}
		ms := n
		if ms > 999 {
			ms = 999
		}
		its[i].x = b.thing("transaction/"+its[i].id, "", its[i].v, its[i].t, M{"id": its[i].id, "created": b.time(its[i].t, stamp(its[i].id, ms)), "account_id": Str(a["id"])})
	}
	return its
}

// milliseconds that do not change when other things come between
func stamp(id string, n int) int { return 7 }

func (b *bank) starlingAccount(a M) M {
	id := Str(a["id"])
	return b.thing("account/"+id, "", Int(a["v"]), 0, M{"accountUid": id, "defaultCategory": Str(a["main"]), "createdAt": b.time(Int(a["created"]), 0), "currency": "GBP"})
}
func (b *bank) identifiers(a M) M {
	return b.thing("identifiers/"+Str(a["id"]), "", Int(a["ident"]), 0, M{"iban": "GB" + Str(a["id"])})
}
func (b *bank) spaces(a M) M {
	g, s := L{}, L{}
	for _, c := range Strs(a["goals"]) {
		g = append(g, b.thing("goal/"+c, "", Int(a["spaces"]), 0, M{"savingsGoalUid": c, "name": "Saving " + c}))
	}
	for _, c := range Strs(a["spend"]) {
		s = append(s, b.thing("spend/"+c, "", Int(a["spaces"]), 0, M{"spaceUid": c, "name": "Space " + c}))
	}
	m := M{"savingsGoals": g, "spendingSpaces": s}
	if len(g)+len(s) == 0 {
		a["spaces"] = 0 // nothing is nothing, in whatever version
	}
	b.note("spaces/"+Str(a["id"]), "", Int(a["spaces"]), 0, m)
	return m
}
func (b *bank) feed(a M, cat string) []item {
	var out []item
	for _, y := range List(a["feeds"]) {
		f := y.(M)
		if Str(f["cat"]) != cat {
			continue
		}
		for _, it := range items(f["items"]) {
			g := Str(a["id"]) + "/" + cat
			it.x = b.thing("item/"+g+"/"+it.id, g, it.v, it.t, M{"feedItemUid": it.id, "transactionTime": b.time(it.t-60, 0), "updatedAt": b.time(it.t, 250), "categoryUid": cat})
			out = append(out, it)
		}
	}
	return out
}
func (b *bank) payees() L {
	l := L{}
	for i := 0; i < Int(b.ev["payees"])%3; i++ {
		l = append(l, b.thing(fmt.Sprintf("payee%d", i), "", Int(b.ev["payees"]), 0, M{"payeeUid": fmt.Sprint(i)}))
	}
	l = append(l, M{"rev": Int(b.ev["payees"]), "pad": strings.Repeat("p", Int(b.ev["pad"]))})
	b.note("payees", "", Int(b.ev["payees"]), 0, l)
	return l
}
func (b *bank) requisition() M {
	l := L{}
	for _, a := range b.accounts() {
		if Bool(a["listed"]) {
			l = append(l, Str(a["id"]))
		}
	}
	return b.thing("requisition", "", Int(b.ev["req"]), 0, M{"id": "req1", "link": "https://link.example/1", "accounts": l})
}
func (b *bank) institution(i int) M {
	return b.thing("institution", "", i, 0, M{"id": fmt.Sprintf("BANK_%d", i), "name": fmt.Sprintf("Bank %d", i)})
}
func (b *bank) basic(a M) M {
	return b.thing("basic/"+Str(a["id"]), "", Int(a["basic"]), 0, M{"id": Str(a["id"]), "status": "READY"})
}
func (b *bank) details(a M) M {
	return b.thing("details/"+Str(a["id"]), "", Int(a["details"]), 0, M{"account": M{"iban": Str(a["id"])}})
}
func (b *bank) nordigenItems(a M, which string) []item {
	its := items(a[which])
	for i := range its {
		k := "transaction/" + Str(a["id"]) + "/" + its[i].id
		if which == "pending" {
			k = "pending/" + its[i].id
		}
		its[i].x = b.thing(k, "", its[i].v, its[i].t, M{"transactionId": its[i].id, "bookingDate": b.time(its[i].t, 0)[:10]})
	}
	return its
}

func (b *bank) accounts() []M {
	var out []M
	for _, a := range List(b.ev["accounts"]) {
		out = append(out, a.(M))
	}
	return out
}
func (b *bank) account(id string) M {
	for _, a := range b.accounts() {
		if Str(a["id"]) == id {
			return a
		}
	}
	return nil
}

// set puts the bank into another state
func (b *bank) set(e M) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.ev = e
	for _, a := range b.accounts() { // everything there is has now been seen
		switch Str(e["kind"]) {
		case "monzo":
			b.monzoAccount(a)
			b.monzoItems(a)
		case "starling":
			b.starlingAccount(a)
			b.identifiers(a)
			b.spaces(a)
			for _, f := range List(a["feeds"]) {
				b.feed(a, Str(f.(M)["cat"]))
			}
		case "nordigen":
			b.basic(a)
			b.details(a)
			b.nordigenItems(a, "items")
			b.nordigenItems(a, "pending")
		}
	}
	switch Str(e["kind"]) {
	case "starling":
		b.payees()
	case "nordigen":
		b.requisition()
	}
}

// ------------------------------------------------------------------ answers

func xs(its []item) L {
	l := L{}
	for _, it := range its {
		l = append(l, it.x)
	}
	return l
}

func (b *bank) page(host string, req *http.Request) (int, interface{}) {
	kind := Str(b.ev["kind"])
	p := req.URL.Path
	no := func() (int, interface{}) {
		b.odd = append(b.odd, req.Method+" "+host+p)
		return 404, M{"error": "not found"}
	}
	issue := func() string {
		b.issued++
		t := fmt.Sprintf("tok%d", b.issued)
		b.tokens[t] = true
		return t
	}
	if req.Method == "POST" {
		switch {
		case kind == "monzo" && host == hosts[0] && p == "/oauth2/token":
			if b.failing() { // no token then
				return 200, M{}
			}
			return 200, M{"access_token": issue(), "token_type": "Bearer", "refresh_token": fmt.Sprintf("ref%d", b.issued), "expires_in": 86400}
		case kind == "nordigen" && host == hosts[2] && p == "/api/v2/token/new/":
			if b.failing() {
				return 201, M{}
			}
			return 201, M{"access": issue(), "access_expires": Int(b.ev["expires"]), "refresh": "ref", "refresh_expires": 864000}
		case kind == "nordigen" && host == hosts[2] && p == "/api/v2/requisitions/":
			m := b.requisition()
			return 201, m
		}
		return no()
	}
	if !b.tokens[strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer ")] {
		b.odd = append(b.odd, "unauthorised "+p)
		return 401, M{"error": "unauthorised"}
	}
	q := req.Form
	ps := strings.Split(strings.Trim(p, "/"), "/")
	switch {
	case kind == "monzo" && host == hosts[0]:
		switch {
		case p == "/ping/whoami":
			return 200, M{"authenticated": true, "client_id": "c", "user_id": "u"}
		case p == "/accounts":
			l := L{}
			for _, a := range b.accounts() {
				if Bool(a["listed"]) {
					l = append(l, b.monzoAccount(a))
				}
			}
			return 200, M{"accounts": l}
		case p == "/transactions":
			a := b.account(q.Get("account_id"))
			if a == nil {
				return no()
			}
			return b.monzoPage(a, q)
		}
	case kind == "starling" && host == hosts[1] && len(ps) > 2 && ps[0] == "api" && ps[1] == "v2":
		ps = ps[2:]
		var a M
		switch ps[0] {
		case "accounts", "account":
			if len(ps) > 1 {
				a = b.account(ps[1])
			}
		case "feed":
			if len(ps) > 2 {
				a = b.account(ps[2])
			}
		}
		switch {
		case len(ps) == 1 && ps[0] == "accounts":
			l := L{}
			for _, a := range b.accounts() {
				if Bool(a["listed"]) {
					l = append(l, b.starlingAccount(a))
				}
			}
			return 200, M{"accounts": l}
		case len(ps) == 1 && ps[0] == "payees":
			return 200, M{"payees": b.payees()}
		case a == nil:
		case len(ps) == 3 && ps[0] == "accounts" && ps[2] == "identifiers":
			return 200, b.identifiers(a)
		case len(ps) == 3 && ps[0] == "account" && ps[2] == "spaces":
			return 200, b.spaces(a)
		case len(ps) == 5 && ps[0] == "feed" && ps[1] == "account" && ps[3] == "category":
			since, err := time.Parse(time.RFC3339, q.Get("changesSince"))
			if err != nil {
				return 400, M{"error": "changesSince"}
			}
			var out []item
			for _, it := range b.feed(a, ps[4]) {
				if !b.base.Add(time.Duration(it.t) * time.Second).Before(since) {
					out = append(out, it)
				}
			}
			if Bool(b.ev["desc"]) {
				for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			return 200, M{"feedItems": xs(out)}
		}
	case kind == "nordigen" && host == hosts[2] && len(ps) > 2 && ps[0] == "api" && ps[1] == "v2":
		ps = ps[2:]
		switch {
		case len(ps) == 1 && ps[0] == "institutions":
			l := L{}
			for i := 0; i < Int(b.ev["insts"]); i++ {
				l = append(l, b.institution(i))
			}
			return 200, l
		case len(ps) == 2 && ps[0] == "requisitions" && ps[1] == "req1":
			return 200, b.requisition()
		case len(ps) >= 2 && ps[0] == "accounts":
			a := b.account(ps[1])
			if a == nil {
				return no()
			}
			switch {
			case len(ps) == 2:
				return 200, b.basic(a)
			case ps[2] == "details":
				return 200, b.details(a)
			case ps[2] == "transactions":
				return 200, M{"transactions": M{"booked": xs(b.nordigenItems(a, "items")), "pending": xs(b.nordigenItems(a, "pending"))}}
			}
		}
	}
	return no()
}

func (b *bank) monzoPage(a M, q url.Values) (int, interface{}) {
	its := b.monzoItems(a)
	since := q.Get("since")
	limit := 30
	fmt.Sscanf(q.Get("limit"), "%d", &limit)
	if limit > 100 || limit < 1 {
		return 400, M{"error": "limit"}
	}
	from := 0
	if t, err := time.Parse(time.RFC3339, since); err == nil || since == "" {
		if Str(b.ev["old"]) == "window" && t.Before(time.Now().Add(-90*24*time.Hour)) {
			return 403, M{"error": "forbidden.verification_required"}
		}
		for from < len(its) {
			d := b.base.Add(time.Duration(its[from].t) * time.Second).Sub(t)
			if d > 0 || d == 0 && Bool(b.ev["incl"]) {
				break
			}
			from++
		}
	} else {
		for from < len(its) && its[from].id != since {
			from++
		}
		if from == len(its) {
			return 400, M{"error": "since"}
		}
		from++
	}
	var out []item
	for _, it := range its[from:] {
		if len(out) < limit && it.late < b.nreq {
			out = append(out, it)
		}
	}
	return 200, M{"transactions": xs(out)}
}
