// hload lets the program load ledger files and shows the book it made of them.
package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	. "verifharness/vh"
)

func main() {
	Main(map[string]Gen{"good": genGood, "scope": genScope, "damaged": genDamaged, "bytes": genBytes}, exec)
}

var root string

func exec(s *Scenario) {
	var err error
	root, err = os.MkdirTemp(os.Getenv("VWORK"), "load")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	var b *book.Book
	for i := range s.Ev {
		e := s.Ev[i]
		Guard(e, func() M {
			switch op := Str(e["op"]); op {
			case "load", "bytes":
				for _, f := range List(e["files"]) {
					x := f.(M)
					p := filepath.Join(root, Str(x["n"]))
					if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
						panic(err)
					}
					data := []byte(strings.ReplaceAll(Str(x["t"]), "@ROOT@", root))
					if op == "bytes" {
						data, err = base64.StdEncoding.DecodeString(Str(x["t"]))
						if err != nil {
							panic(err)
						}
					}
					if err := os.WriteFile(p, data, 0644); err != nil {
						panic(err)
					}
				}
				a := &app.App{Ledger: filepath.Join(root, Str(e["main"]))}
				var err error
				b, err = a.LoadBook()
				if err != nil {
					b = nil
					return M{"err": strings.ReplaceAll(err.Error(), root, "@ROOT@")}
				}
				return M{}
			default:
				if b == nil {
					return M{}
				}
				return Read1(b, e)
			}
		})
	}
}

// Read1 is a read of a book.
func Read1(b *book.Book, e M) M {
	switch Str(e["op"]) {
	case "view":
		return M{"view": View(b.Transactions())}
	case "prices":
		return Prices(b)
	case "dec":
		d := M{}
		for c, n := range b.GetCCYDecimals() {
			d[c] = n
		}
		return M{"dec": d}
	}
	panic("unknown event")
}

func reads(chk ...string) []M {
	c := L{}
	for _, x := range chk {
		c = append(c, x)
	}
	return []M{{"op": "view", "chk": c}, {"op": "prices"}, {"op": "dec"}}
}

func file(n string, d *Doc, crlf bool) M { return M{"n": n, "t": d.Text(crlf), "want": d.Want} }

func load(chk string, files ...interface{}) M {
	return M{"op": "load", "main": files[0].(M)["n"], "files": append(L{}, files...), "chk": L{chk}}
}

func body(d *Doc, n int) {
	for ; n > 0; n-- {
		switch k := d.R.Intn(10); {
		case k < 6:
			d.Txn(nil)
		case k < 8:
			d.Price()
		default:
			d.Noise()
		}
	}
}

// plain well-formed ledgers in every notation
func genGood(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("good-%d", k))
		d := NewDoc(r)
		max := 6
		if k%200 == 0 {
			max = 60
		} else if len(d.Names) > 0 {
			max = 14
		}
		body(d, 1+r.Intn(max))
		crlf := Chance(r, 15)
		for _, l := range d.Lines {
			if strings.Contains(l, ";") {
				crlf = false
			}
		}
		f := file("main.ledger", d, crlf)
		if crlf {
			delete(f, "want")
		}
		out = append(out, Scenario{ID: fmt.Sprintf("good-%d-%d", seed, k), Ev: append([]M{load("accept", f)}, reads("amounts", "notes")...)})
	}
	return out
}

// includes and aliases
func genScope(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("scope-%d", k))
		base := NewDoc(r)
		names := []string{"main.ledger", "a.ledger", "sub/b.ledger", "sub/c d.ledger", "sub/x/e.ledger", "f"}
		if Chance(r, 25) { // the same names again in other directories
			names = []string{"main.ledger", "sub/a.ledger", "sub/main.ledger", "sub/x/a.ledger", "a.ledger", "x/a.ledger"}
		}
		docs := map[string]*Doc{}
		for _, f := range names {
			docs[f] = base.Sub()
		}
		rel := func(from, to string) string {
			if Chance(r, 8) {
				return "@ROOT@/" + to
			}
			p, err := filepath.Rel(filepath.Dir(from), to)
			if err != nil {
				panic(err)
			}
			if Chance(r, 15) {
				p = "./" + p
			}
			return p
		}
		alias := func(d *Doc) {
			s := base.Accts[r.Intn(len(base.Accts))]
			if Chance(r, 15) {
				s = "short"
			}
			d.Alias(s, Pick(r, "Target:One", "Target:Two", base.Accts[0], base.Accts[len(base.Accts)-1]))
		}
		used := map[string]bool{"main.ledger": true}
		// a file may include the files after it in the list (any number of times), or, rarely, one before it
		for fi := len(names) - 1; fi >= 0; fi-- {
			f := names[fi]
			d := docs[f]
			inc := func() {
				if fi+1 < len(names) {
					to := names[fi+1+r.Intn(len(names)-fi-1)]
					used[to] = true
					d.Include(rel(f, to))
				}
			}
			for j := 1 + r.Intn(4); j > 0; j-- {
				switch x := r.Intn(10); {
				case x < 4:
					d.Txn(func() {
						if Chance(r, 50) {
							alias(d)
						} else if Chance(r, 10) {
							inc()
						}
					})
				case x < 7:
					alias(d)
				case x < 9:
					inc()
				default:
					d.Price()
				}
			}
			if fi > 0 && Chance(r, 2) {
				d.Include(rel(f, names[r.Intn(fi+1)]))
			} else if Chance(r, 1) {
				d.Include("missing.ledger")
			} else if Chance(r, 5) { // postings of a transaction that the including file started
				d.Raw("  " + base.Accts[0] + "  5 " + base.Ccys[0])
				d.Raw("  " + base.Accts[1] + "  -5 " + base.Ccys[0])
			}
		}
		var fs []interface{}
		for _, f := range names {
			fs = append(fs, file(f, docs[f], false))
		}
		out = append(out, Scenario{ID: fmt.Sprintf("scope-%d-%d", seed, k), Ev: append([]M{load("accept", fs...)}, reads("amounts", "notes")[:2]...)})
	}
	return out
}

func damage(r *rand.Rand, d *Doc) {
	if len(d.Lines) == 0 {
		d.Raw("x")
		return
	}
	for c := 1 + r.Intn(2); c > 0; c-- {
		i := r.Intn(len(d.Lines))
		l := d.Lines[i]
		d.Want[i] = M{}
		switch []int{0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 7, 8, 8}[r.Intn(14)] {
		case 0: // drop the line
			d.Lines = append(d.Lines[:i:i], d.Lines[i+1:]...)
			d.Want = append(d.Want[:i:i], d.Want[i+1:]...)
			if len(d.Lines) == 0 {
				return
			}
		case 1: // repeat the line
			d.Lines = append(d.Lines[:i:i], append([]string{l}, d.Lines[i:]...)...)
			d.Want = append(d.Want[:i:i], append(L{M{}}, d.Want[i:]...)...)
		case 2: // cut the file here
			if j := r.Intn(len(l) + 1); utf8cut(l, j) {
				d.Lines[i] = l[:j]
			}
			d.Lines, d.Want = d.Lines[:i+1], d.Want[:i+1]
		case 3: // cut the line
			if j := r.Intn(len(l) + 1); utf8cut(l, j) {
				d.Lines[i] = l[:j]
			}
		case 4:
			d.Lines[i] = strings.TrimLeft(l, " \t")
		case 5:
			d.Lines[i] = " " + l
		case 6: // a malformed line
			d.Lines[i] = Pick(r, "2020/02/30 Shop", "2020/13/01 Shop", "2020/00/10 x", "0/1/1 x", "20200/01/01 x", "2020/1/011 x", "2020-01-01 x", "2020/01/01 \"open",
				"P 2020/02/31 00:00:00 USD £1", "P 2020/01/01 USD £1", "P 2020/01/01 00:00:00 USD", "P 2020/01/01 00:00:00 \"\" £1", "P 2020/01/01 00:00:00 USD 1", "Payee",
				"include", "include \"\"", "include missing.ledger", "include main.ledger", "alias a", "alias = b", "alias a =", "alias a b", "garbage", "!x", "~ x", "account Asset:Bank",
				"  Asset:Bank  5", "  Asset:Bank  £", "  Asset:Bank  -", "  Asset:Bank  £ -", "  Asset:Bank  £5 $5", "  Asset:Bank  5.5.5 £", "  Asset:Bank  £5.5.5", "  Asset:Bank  £5 x",
				"  Asset:Bank  \"open 5", "  Asset:Bank  \"\" 5", "  Asset:Bank  . £", "  Asset:Bank  5 £ @", "  Asset:Bank  5 £ @@ $1", "  Asset:Bank  5 £ @ $", "  Asset:Bank  5 £ @ 3",
				"  Asset.Bank  5 £", "  \"Asset\" £5", "  ~ 5 £", "  Asset:Bank  5 £ }", "  Asset:Bank  £1e5", "  Asset:Bank  99999999999999999999999999 £", "  Asset:Bank 12£34",
				"99999999999999/01/01 x", "2020/01/99999999999999999999 x", "  Asset:Bank  (5 £)", "  Asset:Bank  £(5)", "2020/01/01=2020/02/02 x")
		case 8: // an amount that is a little, or much, off
			at := postRe.FindStringIndex(l)
			if at == nil {
				continue
			}
			n := l[at[0]:at[1]]
			if !strings.Contains(n, ".") {
				n += "."
			}
			d.Lines[i] = l[:at[0]] + Pick(r, n+"1", n+"0001", n+"00000000000001", n+"5", n+strings.Repeat("0", r.Intn(40))+"1", "1"+n, "9999999999999999999"+n) + l[at[1]:]
		default: // damage a character
			b := []rune(l)
			j := r.Intn(len(b) + 1)
			c := []rune(Pick(r, "0", "9", ".", ",", "-", "/", "\"", ";", "@", " ", "=", "£", "x", ":", "!", "[", "]", "*", "\t", "é", "٣", "(", "%"))[0]
			switch r.Intn(4) {
			case 0, 1:
				b = append(b[:j:j], append([]rune{c}, b[j:]...)...)
			case 2:
				if j < len(b) {
					b = append(b[:j:j], b[j+1:]...)
				}
			default:
				if j < len(b) {
					b[j] = c
				}
			}
			d.Lines[i] = string(b)
		}
	}
}

var postRe = regexp.MustCompile(`[0-9][0-9,]*\.?[0-9]*`)

func utf8cut(s string, j int) bool { return j == len(s) || s[j]&0xc0 != 0x80 }

// ledgers with something wrong in them
func genDamaged(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("damaged-%d", k))
		d := NewDoc(r)
		body(d, 1+r.Intn(3))
		fs := []interface{}{}
		if Chance(r, 20) {
			in := d.Sub()
			body(in, 1+r.Intn(2))
			if Chance(r, 50) {
				damage(r, in)
			}
			d.Include("in.ledger")
			body(d, r.Intn(2))
			fs = append(fs, file("in.ledger", in, false))
		}
		damage(r, d)
		fs = append([]interface{}{file("main.ledger", d, false)}, fs...)
		out = append(out, Scenario{ID: fmt.Sprintf("damaged-%d-%d", seed, k), Ev: append([]M{load("reject", fs...)}, reads("amounts", "balanced")[:1]...)})
	}
	return out
}

// files of arbitrary bytes: nothing is said about them except that the program
// neither crashes nor hangs, and that what it loads balances
func genBytes(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("bytes-%d", k))
		d := NewDoc(r)
		body(d, 1+r.Intn(4))
		b := []byte(d.Text(false))
		switch r.Intn(4) {
		case 0:
			b = make([]byte, r.Intn(60))
			r.Read(b)
		case 1: // one very long line
			b = append(b, []byte(strings.Repeat(Pick(r, "9", "x", " ", ",", "\"", "Asset:"), 70000))...)
		default:
			for c := 1 + r.Intn(6); c > 0 && len(b) > 0; c-- {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		}
		t := base64.StdEncoding.EncodeToString(b)
		out = append(out, Scenario{ID: fmt.Sprintf("bytes-%d-%d", seed, k),
			Ev: []M{{"op": "bytes", "main": "main.ledger", "files": L{M{"n": "main.ledger", "t": t}}}, {"op": "view", "chk": L{"balanced"}}}})
	}
	return out
}
