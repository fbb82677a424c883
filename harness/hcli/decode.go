package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	. "verifharness/vh"
)

// decode adds the forms that an output can be read as.
func decode(cmd, out string, o M) {
	switch cmd {
	case "report", "export":
		if x, err := transactions(out); err == nil {
			o["txns"] = x
		}
		if x, err := exportRows(out); err == nil {
			o["rows"] = x
		}
		if strings.HasPrefix(strings.TrimSpace(out), "<") {
			if x, err := page(out); err == nil {
				o["html"] = x
			} else {
				o["oddhtml"] = err.Error()
			}
		} else {
			o["oddhtml"] = "no page"
		}
		if x, err := beancount(out); err == nil {
			o["bean"] = x
		} else {
			o["oddbean"] = err.Error()
		}
	case "register":
		if x, err := sections(out); err == nil {
			o["secs"] = x
		}
	case "accts":
		var l []string
		if err := json.Unmarshal([]byte(out), &l); err == nil {
			q := L{}
			for _, x := range l {
				q = append(q, x)
			}
			o["accts"] = q
		}
	}
}

func number(t string) (string, error) {
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return "", err
	}
	x := new(big.Rat).SetFloat64(f)
	if x == nil {
		return "", fmt.Errorf("not a number: %s", t)
	}
	return x.String(), nil
}

func ymd(t string) (string, error) {
	d, err := time.Parse(time.RFC3339, t)
	if err != nil {
		return "", err
	}
	if d.Hour() != 0 || d.Minute() != 0 || d.Second() != 0 {
		return "", fmt.Errorf("date with a time: %s", t)
	}
	return d.Format("2006/01/02"), nil
}

func text(m M, k string) (string, error) {
	v, ok := m[k]
	if !ok {
		return "", nil
	}
	s, ok := v.(string)
	if !ok {
		return "", fmt.Errorf("%s is not a text", k)
	}
	return s, nil
}

func num(m M, k string) (string, error) {
	n, ok := m[k].(json.Number)
	if !ok {
		return "", fmt.Errorf("%s is not a number", k)
	}
	return number(n.String())
}

func object(v interface{}) (M, error) {
	m, ok := v.(M)
	if !ok {
		return nil, fmt.Errorf("not an object: %v", v)
	}
	return m, nil
}

// one JSON list at the start of a text, and what follows it
func list(t string) (L, string, error) {
	d := json.NewDecoder(strings.NewReader(t))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, "", err
	}
	rest := t[d.InputOffset():]
	if v == nil {
		return L{}, rest, nil
	}
	l, ok := v.(L)
	if !ok {
		return nil, "", fmt.Errorf("not a list")
	}
	return l, rest, nil
}

func transactions(t string) (L, error) {
	l, rest, err := list(t)
	if err != nil {
		return nil, err
	}
	if strings.TrimSpace(rest) != "" {
		return nil, fmt.Errorf("text after the list")
	}
	out := L{}
	for _, x := range l {
		m, err := object(x)
		if err != nil {
			return nil, err
		}
		g := get{m: m}
		r := M{"d": g.date("date"), "p": g.text("payee"), "n": g.text("note")}
		ps := L{}
		q, ok := m["posts"].(L)
		if !ok {
			return nil, fmt.Errorf("posts is not a list")
		}
		for _, y := range q {
			p, err := object(y)
			if err != nil {
				return nil, err
			}
			h := get{m: p}
			ps = append(ps, M{"a": h.text("account"), "c": h.text("ccy"), "v": h.num("amount"), "n": h.text("note")})
			if h.err != nil {
				return nil, h.err
			}
		}
		if g.err != nil {
			return nil, g.err
		}
		r["ps"] = ps
		out = append(out, r)
	}
	return out, nil
}

type get struct {
	m   M
	err error
}

func (g *get) keep(s string, err error) string {
	if err != nil && g.err == nil {
		g.err = err
	}
	return s
}
func (g *get) text(k string) string { return g.keep(text(g.m, k)) }
func (g *get) num(k string) string  { return g.keep(num(g.m, k)) }
func (g *get) date(k string) string {
	t, err := text(g.m, k)
	if err != nil {
		return g.keep("", err)
	}
	return g.keep(ymd(t))
}

func table(t string, header ...string) ([][]string, error) {
	r := csv.NewReader(strings.NewReader(t))
	r.FieldsPerRecord = len(header)
	var out [][]string
	for k := 0; ; k++ {
		row, err := r.Read()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if k == 0 {
			for i := range header {
				if row[i] != header[i] {
					return nil, fmt.Errorf("header %q", row[i])
				}
			}
			continue
		}
		out = append(out, row)
	}
	return out, nil
}

func exportRows(t string) (L, error) {
	if t == "" {
		return nil, fmt.Errorf("no header")
	}
	rows, err := table(t, "date", "payee", "transaction_note", "account", "currency", "amount", "post_note")
	if err != nil {
		return nil, err
	}
	out := L{}
	for _, r := range rows {
		v, err := number(r[5])
		if err != nil {
			return nil, err
		}
		out = append(out, M{"d": r[0], "p": r[1], "t": r[2], "a": r[3], "c": r[4], "v": v, "n": r[6]})
	}
	return out, nil
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// the sections of a register in JSON or CSV: "\naccount\nentries", or the entries alone
func sections(t string) (L, error) {
	if !strings.HasPrefix(t, "\n") {
		if t == "" {
			return L{}, nil
		}
		es, rest, err := entries(t, true)
		if err != nil {
			return nil, err
		}
		if rest != "" {
			return nil, fmt.Errorf("text after the entries")
		}
		return L{M{"acct": "", "es": es}}, nil
	}
	out := L{}
	for t != "" {
		if !strings.HasPrefix(t, "\n") {
			return nil, fmt.Errorf("no section at %.20q", t)
		}
		t = t[1:]
		i := strings.Index(t, "\n")
		if i < 0 {
			return nil, fmt.Errorf("no entries")
		}
		a := ansi.ReplaceAllString(t[:i], "")
		es, rest, err := entries(t[i+1:], false)
		if err != nil {
			return nil, err
		}
		out = append(out, M{"acct": a, "es": es})
		t = rest
	}
	return out, nil
}

func entries(t string, whole bool) (L, string, error) {
	out := L{}
	if strings.HasPrefix(t, "[") || strings.HasPrefix(t, "null") {
		l, rest, err := list(t)
		if err != nil {
			return nil, "", err
		}
		for _, x := range l {
			m, err := object(x)
			if err != nil {
				return nil, "", err
			}
			g := get{m: m}
			out = append(out, M{"d": g.date("date"), "p": g.text("payee"), "a": g.text("account"), "ca": g.text("counterAccount"), "c": g.text("ccy"),
				"v": g.num("amount"), "b": g.num("balance"), "n": g.text("note"), "t": g.text("tnote"),
				"bc": g.text("BaseCCY"), "bv": g.num("BaseAmount"), "bk": g.text("BaseSource")})
			if g.err != nil {
				return nil, "", g.err
			}
		}
		return out, rest, nil
	}
	rest := ""
	if i := strings.Index(t, "\n\n"); i >= 0 && !whole {
		t, rest = t[:i+1], t[i+1:]
	}
	rows, err := table(t, "date", "payee", "account", "counterAccount", "ccy", "amount", "balance")
	if err != nil {
		return nil, "", err
	}
	for _, r := range rows {
		v, err := number(r[5])
		if err != nil {
			return nil, "", err
		}
		b, err := number(r[6])
		if err != nil {
			return nil, "", err
		}
		out = append(out, M{"d": r[0], "p": r[1], "a": r[2], "ca": r[3], "c": r[4], "v": v, "b": b})
	}
	return out, rest, nil
}

var bDate = `([0-9]{4}/[0-9]{2}/[0-9]{2})`
var bOption = regexp.MustCompile(`^option "operating_currency" "(.*)"$`)
var bAcct = regexp.MustCompile(`^` + bDate + ` (open|close) (\S+)$`)
var bTxn = regexp.MustCompile(`^` + bDate + ` \* "((?:[^"\\]|\\.)*)"(?:  ; (.*))?$`)
var bPost = regexp.MustCompile(`^  (\S+)  (-?[0-9]+(?:\.[0-9]+)?) (\S*)(?:  ; (.*))?$`)
var bPrice = regexp.MustCompile(`^` + bDate + ` price (\S*) (-?[0-9]+(?:\.[0-9]+)?) (\S*)$`)

func rat(t string) string {
	x, ok := new(big.Rat).SetString(t)
	if !ok {
		panic(t)
	}
	return x.String()
}

func beancount(t string) (M, error) {
	opts, opens, closes, txns, prices := L{}, L{}, L{}, L{}, L{}
	var cur M
	for _, l := range strings.Split(t, "\n") {
		if x := bPost.FindStringSubmatch(l); x != nil && cur != nil {
			cur["ps"] = append(cur["ps"].(L), M{"a": x[1], "v": rat(x[2]), "c": x[3], "n": x[4]})
			continue
		}
		cur = nil
		if l == "" || strings.HasPrefix(l, ";") {
			continue
		}
		if x := bOption.FindStringSubmatch(l); x != nil {
			opts = append(opts, x[1])
		} else if x := bAcct.FindStringSubmatch(l); x != nil && x[2] == "open" {
			opens = append(opens, L{x[1], x[3]})
		} else if x != nil {
			closes = append(closes, L{x[1], x[3]})
		} else if x := bTxn.FindStringSubmatch(l); x != nil {
			cur = M{"d": x[1], "p": unescape(x[2]), "n": x[3], "ps": L{}}
			txns = append(txns, cur)
		} else if x := bPrice.FindStringSubmatch(l); x != nil {
			prices = append(prices, L{x[1], x[2], rat(x[3]), x[4]})
		} else {
			return nil, fmt.Errorf("not Beancount: %.80s", l)
		}
	}
	return M{"opts": opts, "opens": opens, "closes": closes, "txns": txns, "prices": prices}, nil
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// page reads a web page: its style, and its boxes and their texts.
func page(out string) (M, error) {
	const before, after = "<html><head><style>", "</style></head><body>"
	t := strings.TrimSpace(out)
	if !strings.HasPrefix(t, before) {
		return nil, fmt.Errorf("no style")
	}
	css, t, ok := strings.Cut(t[len(before):], after)
	if !ok || !strings.HasSuffix(t, "</body></html>") {
		return nil, fmt.Errorf("no body")
	}
	t = strings.TrimSuffix(t, "</body></html>")
	boxes := L{}
	for t != "" {
		i := strings.Index(t, "<")
		if i < 0 {
			i = len(t)
		}
		if s := t[:i]; s != "" && !(strings.Contains(s, "\n") && strings.TrimSpace(s) == "") {
			boxes = append(boxes, "="+html.UnescapeString(s))
		}
		if t = t[i:]; t == "" {
			break
		}
		j := strings.Index(t, ">")
		if j < 0 {
			return nil, fmt.Errorf("unfinished tag")
		}
		tag := t[1:j]
		t = t[j+1:]
		switch {
		case tag == "/div":
			boxes = append(boxes, "-")
		case strings.HasPrefix(tag, "div class=\"") && strings.HasSuffix(tag, "\"") && strings.Count(tag, "\"") == 2:
			boxes = append(boxes, "+"+strings.TrimSuffix(strings.TrimPrefix(tag, "div class=\""), "\""))
		default:
			return nil, fmt.Errorf("unexpected tag %s", firstLine(tag))
		}
	}
	return M{"css": strings.TrimSuffix(strings.TrimPrefix(css, "\n"), "\n"), "boxes": boxes}, nil
}
