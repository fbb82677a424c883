package vh

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// ---- ledger documents: structure rendered to text in the permitted notations

var LAccts = []string{"Asset:Bank", "Asset:Bank:Sub", "Asset:Bank1", "Asset", "Asset:Cash", "Expense:Food", "Expense:Food'n",
	"Expense:R&B", "Income:Job", "Equity", "Liability:Card_1", "a", "1st:X", "X:Y:Z:W:V", "Asset::Bank", "_u", "Z"}
var LCcys = []string{"£", "$", "USD", "EUR", "GBP", "€", "usd", "p¥", "a%b", "Ω/x", "N_1x"[:3]}
var LQuotedCcys = []string{"ABC DEF", "U2", "A-B", "x;y", "a@b", "A.B", "1", "A,B", " ", "A=B"}
var LPayees = []string{"Shop", "Shop", "Shop", "Zed", "shop", "Aldi Süd", "Shop (2)", "O\"Neil's \"x\"", "Rent, May", "B&B @ 3", "= x", "12 Angry", "日本 商店", "a  b", "C:\\temp", "end\\", "tab\tin", "<i>&b</i>", ""}
var LQuotedPayees = []string{"* starred", "semi; colon", "Shop", "  padded  ", "", "日本"}
var LNotes = []string{"", "", "", "n1", "; twice", "note three ", "\"q\" £5 @ x", "ünï"}

type Doc struct {
	R     *rand.Rand
	Accts []string
	Ccys  []string
	Dates []int
	Names []string // payees to choose from (none: any)
	Lines []string
	Want  L // what each line says, by construction
}

func NewDoc(r *rand.Rand) *Doc {
	d := &Doc{R: r, Accts: Subset(r, LAccts, 3+r.Intn(4)), Ccys: Subset(r, LCcys, 1+r.Intn(2)), Dates: DatePool(r, Chance(r, 30)), Want: L{}}
	if Chance(r, 30) {
		d.Ccys = append(d.Ccys, one(r, LQuotedCcys))
	}
	if Chance(r, 8) { // the same few payees over and over, numbered ones among them
		d.Names = Subset(r, []string{"Shop", "Shop", "Shop (2)", "Shop (3)", "Shop (2) (2)", ""}, 3)
		d.Dates = d.Dates[:1+r.Intn(2)]
	}
	return d
}

func (d *Doc) Sub() *Doc {
	return &Doc{R: d.R, Accts: d.Accts, Ccys: d.Ccys, Dates: d.Dates, Names: d.Names, Want: L{}}
}

func (d *Doc) add(text string, want M) {
	if want == nil {
		want = M{"t": "skip"}
	}
	d.Lines = append(d.Lines, text)
	d.Want = append(d.Want, want)
}

func (d *Doc) ws(min int) string {
	n := min
	for Chance(d.R, 25) {
		n++
	}
	s := ""
	for i := 0; i < n; i++ {
		s += Pick(d.R, " ", " ", " ", "\t")
	}
	return s
}

func quotable(s string) bool { return !strings.Contains(s, "\"") && !strings.Contains(s, "\n") }

// a currency that can stand without quotes
func bare(c string) bool {
	if c == "" {
		return false
	}
	for _, x := range c {
		if x == ';' || x == '@' || x == '-' || x == '.' || x == ',' || x == '"' || x == '=' || x == ' ' || x == '\t' || (x >= '0' && x <= '9') {
			return false
		}
	}
	return true
}

func (d *Doc) ccy(c string) string {
	if !bare(c) || Chance(d.R, 15) {
		return "\"" + c + "\""
	}
	return c
}

// digits of a non-negative decimal in some permitted spelling
func (d *Doc) digits(v *big.Rat) string {
	r := d.R
	k := 0
	x := new(big.Rat).Set(v)
	for !x.IsInt() && k < 60 {
		x.Mul(x, big.NewRat(10, 1))
		k++
	}
	s := v.FloatString(k)
	whole, frac := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, frac = s[:i], s[i+1:]
	}
	for Chance(r, 20) {
		frac += "0"
	}
	if whole == "0" && frac != "" && Chance(r, 20) {
		whole = ""
	} else if Chance(r, 8) {
		whole = "00" + whole
	}
	if len(whole) > 1 && Chance(r, 40) {
		if Chance(r, 70) { // thousands
			t := ""
			for len(whole) > 3 {
				t = "," + whole[len(whole)-3:] + t
				whole = whole[:len(whole)-3]
			}
			whole += t
		} else {
			i := 1 + r.Intn(len(whole)-1)
			whole = whole[:i] + "," + whole[i:]
		}
	}
	if frac != "" {
		return whole + "." + frac
	}
	if Chance(r, 5) {
		return whole + "."
	}
	return whole
}

// currency and amount in some permitted order
func (d *Doc) Amount(c string, v *big.Rat, signFirst bool) string {
	r := d.R
	neg := v.Sign() < 0
	dg := d.digits(new(big.Rat).Abs(v))
	sg := ""
	if neg {
		sg = "-"
	}
	cc := d.ccy(c)
	switch {
	case Chance(r, 40): // amount first
		return sg + dg + d.ws(0) + cc
	case signFirst && Chance(r, 50): // sign, currency, amount
		return sg + cc + d.ws(0) + dg
	default:
		return cc + d.ws(0) + sg + dg
	}
}

func date(r *rand.Rand, d int) string {
	y, m, x := d/10000, d/100%100, d%100
	switch {
	case Chance(r, 70):
		return fmt.Sprintf("%04d/%02d/%02d", y, m, x)
	case Chance(r, 50):
		return fmt.Sprintf("%d/%d/%d", y, m, x)
	default:
		return fmt.Sprintf("%04d/%d/%02d", y, m, x)
	}
}

func (d *Doc) note(n string) string {
	if n == "" {
		if Chance(d.R, 4) {
			return d.ws(0) + ";"
		}
		return d.ws(0)
	}
	return d.ws(0) + ";" + d.ws(0) + n
}

func trimL(s string) string { return strings.TrimLeft(s, " \t") }

// Noise adds lines that say nothing.
func (d *Doc) Noise() {
	switch d.R.Intn(8) {
	case 0:
		d.add("", nil)
	case 1:
		d.add(d.ws(1), nil)
	case 2:
		d.add("; a comment 2020/01/01 x", nil)
	case 3:
		d.add(d.ws(1)+";  Asset:Bank £5", nil)
	case 4:
		d.add("D £1,000.00", nil)
	case 5:
		d.add("= expr", nil)
	default:
		d.add(d.ws(0), nil)
	}
}

// Txn adds a balanced transaction; extra lines may be put between its postings by mid.
func (d *Doc) Txn(mid func()) {
	r := d.R
	dt := d.Dates[r.Intn(len(d.Dates))]
	payee := one(r, LPayees)
	text := payee
	if len(d.Names) > 0 {
		payee = one(r, d.Names)
		text = payee
	} else if Chance(r, 25) || strings.HasPrefix(payee, "\"") {
		payee = one(r, LQuotedPayees)
		text = "\"" + payee + "\""
		payee = strings.Trim(payee, " ")
	} else if quotable(payee) && Chance(r, 10) {
		text = "\"" + payee + "\""
	}
	n := one(r, LNotes)
	star := ""
	if Chance(r, 30) {
		star = "*" + d.ws(0)
	}
	d.add(date(r, dt)+d.ws(1)+star+text+d.note(n), M{"t": "txn", "d": dt, "p": payee, "n": trimL(n)})
	bal := map[string]*big.Rat{}
	var order []string
	post := func(a string, c string, v *big.Rat, n string) {
		mark := Pick(r, "", "", "", "", "", "!", "[")
		txt := a
		if mark == "!" {
			txt = "!" + a
		} else if mark == "[" {
			txt = "[" + a + "]"
		}
		if v == nil {
			d.add(d.ws(1)+txt+d.note(n), M{"t": "post", "a": a, "amt": false, "c": "", "v": "0/1", "n": trimL(n)})
			return
		}
		am := d.Amount(c, v, true)
		if Chance(r, 10) {
			p := big.NewRat(int64(1+r.Intn(500)), 100)
			am += d.ws(0) + "@" + d.ws(0) + d.Amount(one(r, d.Ccys), p, false)
		}
		d.add(d.ws(1)+txt+d.ws(1)+am+d.note(n), M{"t": "post", "a": a, "amt": true, "c": c, "v": canon(v), "n": trimL(n)})
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if Chance(r, 8) {
			d.Noise()
		}
		c := one(r, d.Ccys)
		v := DecAmt(r)
		post(one(r, d.Accts), c, v, one(r, LNotes))
		if bal[c] == nil {
			bal[c] = new(big.Rat)
			order = append(order, c)
		}
		bal[c].Add(bal[c], v)
		if mid != nil && Chance(r, 15) {
			mid()
		}
		if Chance(r, 6) { // an amount-less posting in the middle
			post(one(r, d.Accts), "", nil, one(r, LNotes))
			bal = map[string]*big.Rat{}
			order = nil
		}
	}
	if Chance(r, 60) {
		post(one(r, d.Accts), "", nil, one(r, LNotes))
	} else {
		for _, c := range order {
			if bal[c].Sign() != 0 || Chance(r, 20) {
				post(one(r, d.Accts), c, new(big.Rat).Neg(bal[c]), one(r, LNotes))
			}
		}
	}
}

// Settle adds a transaction that empties an account.
func (d *Doc) Settle() {
	r := d.R
	bal := map[string]*big.Rat{}
	acct := ""
	for _, x := range d.Want {
		m := x.(M)
		if Str(m["t"]) != "post" || !Bool(m["amt"]) {
			continue
		}
		if acct == "" {
			acct = Str(m["a"])
		}
		if a := Str(m["a"]); a == acct {
			v, _ := new(big.Rat).SetString(Str(m["v"]))
			c := Str(m["c"])
			if bal[c] == nil {
				bal[c] = new(big.Rat)
			}
			bal[c].Add(bal[c], v)
		}
	}
	if acct == "" {
		return
	}
	keys := map[string]bool{}
	for c := range bal {
		keys[c] = true
	}
	dt := d.Dates[r.Intn(len(d.Dates))]
	d.add(date(r, dt)+" settle", M{"t": "txn", "d": dt, "p": "settle", "n": ""})
	for _, c := range SortedKeys(keys) {
		if Chance(r, 10) {
			continue
		}
		v := new(big.Rat).Neg(bal[c])
		d.add("  "+acct+"  "+d.Amount(c, v, true), M{"t": "post", "a": acct, "amt": true, "c": c, "v": canon(v), "n": ""})
	}
	d.add("  Equity", M{"t": "post", "a": "Equity", "amt": false, "c": "", "v": "0/1", "n": ""})
}

func canon(v *big.Rat) string { return v.String() }

func (d *Doc) Price() {
	r := d.R
	u, c := one(r, d.Ccys), one(r, d.Ccys)
	if Chance(r, 30) {
		u = "XAU"
	}
	v := big.NewRat(int64(1+r.Intn(20000)), []int64{1, 10, 100, 1000, 10000, 8}[r.Intn(6)])
	dt := d.Dates[r.Intn(len(d.Dates))]
	if Chance(r, 50) {
		dt = Date(r, []int{dt / 10000})
	}
	d.PriceOf(dt, u, c, v)
}

// PriceOf adds a given price.
func (d *Doc) PriceOf(dt int, u, c string, v *big.Rat) {
	r := d.R
	n := ""
	if Chance(r, 20) {
		n = d.ws(0) + "; market"
	}
	d.add("P"+d.ws(1)+date(r, dt)+d.ws(1)+Pick(r, "00:00:00", "12:34:56", "1:2:3")+d.ws(1)+d.ccy(u)+d.ws(1)+d.Amount(c, v, false)+n,
		M{"t": "price", "d": dt, "u": u, "c": c, "v": canon(v)})
}

func (d *Doc) Alias(s, l string) {
	d.add(Pick(d.R, "alias", "Alias", "ALIAS")+d.ws(1)+s+d.ws(0)+"="+d.ws(0)+l+Pick(d.R, "", "", " ; why"), M{"t": "alias", "s": s, "l": l})
}

func (d *Doc) Include(f string) {
	t := f
	if Chance(d.R, 30) || strings.Contains(f, " ") && Chance(d.R, 50) {
		t = "\"" + f + "\""
	}
	d.add(Pick(d.R, "include", "Include", "INCLUDE")+d.ws(1)+t+Pick(d.R, "", "", " "), M{"t": "include", "f": f})
}

// Raw adds a line of which nothing is known by construction.
func (d *Doc) Raw(text string) { d.Lines = append(d.Lines, text); d.Want = append(d.Want, M{}) }

// Text joins the lines, with or without a final line end.
func (d *Doc) Text(crlf bool) string {
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	s := strings.Join(d.Lines, nl)
	if len(d.Lines) > 0 && Chance(d.R, 85) {
		s += nl
	}
	return s
}
