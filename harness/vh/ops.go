package vh

import (
	"fmt"
	"math/rand"
	"strings"
)

// ---- random operations and their texts

var MapRes = [][2]string{
	{"^Asset:", "A:"}, {"^Asset:[^:]*", "Asset:Z"}, {"^([^:]+):.*$", "$1"}, {"Expense", "Income"},
	{"^(.*):Sub$", "$1"}, {"[A-Z]", "x"}, {":", "::"}, {"^.*$", "All"}, {"Food", "Food:Food"},
	{"^Asset:Bank$", "Asset:Cash"}, {"^(Asset|Expense):(.*)$", "$2:$1"}, {"a", "${0}b"}, {"Nothing", "X"},
	{"^Asset:Cash$", "Asset:Bank"}, {"(?i)asset", "ASSET"}, {"^A", "$$"}, {"o+", "<$0>"}, {"x*", "-"}, {"$", ":End"},
}
var MoveRes = [][2]string{
	{"^Expense", "Expense:Moved"}, {"^Asset:Bank$", "Asset:Cash"}, {"^(.*)$", "$1"}, {"^Expense:(.*)$", "Reserve:$1"},
	{"^.*$", "Pool"}, {"Food", "Food"}, {"^Asset", "Liability"}, {"Nothing", "X"}, {"^([^:]+):.*$", "$1"}, {"^Z$", "Asset"},
	{"^(.*):[^:]*$", "$1"}, {"(^|:)[^:]*", "${1}x"}, {"^Asset:", "Asset:Asset:"}, {":", "::"}, {"[aeo]", "e"}, {"^(.)(.*)$", "$2$1"}, {"s", "ss"},
}
var Factors = []string{"0.1", "0.3", "1", "0", "0.25", "2", "0.333333333333333333", "0.7", "1.05", "0.0001", ".5", "3.", "0.90", "10", "123456789.987654321"}

func RandMap(r *rand.Rand) M {
	p := MapRes[r.Intn(len(MapRes))]
	e := M{"op": "map", "re": p[0], "rep": p[1]}
	if Chance(r, 25) {
		e["alt"] = Pick(r, "Other", "Asset", "Expense:Food", "All")
	} else {
		e["alt"] = ""
	}
	return e
}
func RandMove(r *rand.Rand) M {
	p := MoveRes[r.Intn(len(MoveRes))]
	return M{"op": "move", "re": p[0], "rep": p[1], "f": Factors[r.Intn(len(Factors))]}
}
func RandDepr(r *rand.Rand) M {
	p := MoveRes[r.Intn(len(MoveRes))]
	n := []int{1, 2, 3, 12, 7, 13, 25}[r.Intn(7)]
	if Chance(r, 3) {
		n = 150
	}
	return M{"op": "depreciate", "re": p[0], "rep": p[1], "n": n}
}

func DateText(r *rand.Rand, d int) string {
	y, m, dd := d/10000, (d/100)%100, d%100
	switch r.Intn(7) {
	case 0:
		return fmt.Sprintf("%04d/%02d/%02d", y, m, dd)
	case 1:
		return fmt.Sprintf("%04d-%d-%d", y, m, dd)
	case 2:
		return fmt.Sprintf("%04d%02d%02d", y, m, dd)
	case 3:
		return fmt.Sprintf("%02d/%02d/%04d", dd, m, y)
	case 4:
		return fmt.Sprintf("%04d.%02d.%02d", y, m, dd)
	case 5:
		return fmt.Sprintf("%d-%d-%04d", dd, m, y)
	default:
		return fmt.Sprintf("%04d-%02d-%02d", y, m, dd)
	}
}

func Near(r *rand.Rand, d int) int {
	y, m, dd := d/10000, (d/100)%100, d%100
	switch r.Intn(6) {
	case 0:
		if dd < DaysIn(y, m) {
			return d + 1
		}
	case 1:
		if dd > 1 {
			return d - 1
		}
	case 2:
		return y*10000 + m*100 + 1
	case 3:
		return y*10000 + 101
	}
	return d
}

func RandWindow(r *rand.Rand, n Names) M {
	arg := ""
	switch k := r.Intn(20); {
	case k < 14:
		arg = DateText(r, Near(r, n.Dates[r.Intn(len(n.Dates))]))
	case k < 16:
		arg = fmt.Sprintf("%04d", n.Dates[r.Intn(len(n.Dates))]/10000)
	case k < 17:
		d := n.Dates[r.Intn(len(n.Dates))]
		arg = fmt.Sprintf("%04d-%02d", d/10000, (d/100)%100)
	default:
		arg = Pick(r, "this", "last", "next") + " " + Pick(r, "month", "quarter", "year")
	}
	return M{"op": Pick(r, "since", "asof"), "arg": arg}
}
func RandCombine(r *rand.Rand) M {
	return M{"op": "combine", "by": Pick(r, "monthly", "monthly", "quarterly", "quarterly", "yearly", "yearly", "none", "today")}
}

var CcyRes = [][2]string{{"^USD$", "EUR"}, {"USD", "US Dollar"}, {"^.*$", "ALL"}, {"^[A-Z]+$", "X$0"}, {"£", "GBP"}, {"^GBP$", "£"},
	{"usd", "USD"}, {"Nothing", "X"}, {"^U", "E"}, {"^(USD|EUR)$", "M"}, {"XAU", "EUR"},
	{"[A-Z]", "x"}, {"U", "uu"}, {"D|R", "d"}, {"(.)(.)", "$2$1"}, {"[A-Za-z]", "<$0>"}}

func RandMapCcy(r *rand.Rand) M {
	p := CcyRes[r.Intn(len(CcyRes))]
	return M{"op": "mapccy", "re": p[0], "rep": p[1]}
}
func RandConvert(r *rand.Rand, n Names) M {
	return M{"op": "convert", "base": n.Ccys[r.Intn(len(n.Ccys))]}
}

func RandOp(r *rand.Rand, n Names) M {
	switch k := r.Intn(14); {
	case k < 3:
		return RandMap(r)
	case k < 6:
		return RandMove(r)
	case k < 8:
		return RandDepr(r)
	case k < 10:
		return RandWindow(r, n)
	case k < 12:
		return RandCombine(r)
	case k < 13:
		return RandMapCcy(r)
	default:
		return RandConvert(r, n)
	}
}

func OpString(e M) string {
	switch Str(e["op"]) {
	case "map":
		s := "map=/" + Str(e["re"]) + "/" + Str(e["rep"]) + "/"
		if a := Str(e["alt"]); a != "" {
			s += a + "/"
		}
		return s
	case "move":
		return "move=/" + Str(e["re"]) + "/" + Str(e["rep"]) + "/" + Str(e["f"]) + "/"
	case "depreciate":
		return "depreciate=/" + Str(e["re"]) + "/" + Str(e["rep"]) + "/" + fmt.Sprint(Int(e["n"])) + "/"
	case "since", "asof":
		return Str(e["op"]) + "=" + Str(e["arg"])
	case "combine":
		return "combine=" + Str(e["by"])
	case "mapccy":
		return "mapccy=/" + Str(e["re"]) + "/" + Str(e["rep"]) + "/"
	}
	return ""
}

var oddOps = []string{"", "x", "map", "map=", "=", "map=/a/", "map=/a/b", "map=a/b/", "map=/a/b/c/d/", "map=/a//", "map=//b/", "map=//", "map=/a/b//", "map=/(/b/", "map=/[/b/",
	"map=/*/b/", "map=/a/b/c/", "Map=/a/b/", "MAP=/a/b/", "map =/a/b/", " map=/a/b/", "map=/a/b/ ", "map= /a/b/", "maps=/a/b/", "1map=/a/b/", "map_=/a/b/", "map==/a/b/",
	"mapccy=/a/", "mapccy=/a/b/c/", "mapccy=/(/b/", "mapccy=", "mapccy=/USD/EUR/", "mapccy=/USD/EUR",
	"move=/a/b/", "move=/a/b/x/", "move=/a/b/-1/", "move=/a/b/1.2.3/", "move=/a/b/./", "move=/a/b/1,5/", "move=/a/b/1e2/", "move=/a/b/1 /", "move=/a/b/0.5", "move=/(/b/1/", "move=/a/b/..5/", "move=/a/b/5./", "move=/a/b/.5/", "move=/a/b/00.50/", "move=/a/b/1/2/", "move=/a/b/50%/",
	"depreciate=/a/b/", "depreciate=/a/b/0/", "depreciate=/a/b/00/", "depreciate=/a/b/1.5/", "depreciate=/a/b/3./", "depreciate=/a/b/-3/", "depreciate=/a/b/x/", "depreciate=/a/b/03/", "depreciate=/a/b/99999999999999999999/", "depreciate=/a/b/3", "depreciate=/(/b/3/", "depreciate=/a/b//",
	"since=", "since=x", "since=2020-13-01", "since=2020-02-30", "since=2021-02-29", "since=0", "since=today", "since=2020 ", " since=2020", "since=/2020/", "Since=2020", "asof=", "asof=tomorrow", "asof=2020-00", "asof=99", "asof=next week", "asof=this  month", "asof=last_year",
	"combine=", "combine=all", "combine=Monthly", "combine=YEARLY", "combine=month", "combine=daily", "combine=monthly ", "combine=None", "combine=quarterly", "combine=skip", "combine",
	"convert=USD", "sum", "delete=/a/b/", "m1=", "filter=/a/b/"}

func RandOpText(r *rand.Rand, nm Names, macros []string) string {
	var s string
	switch k := r.Intn(20); {
	case k < 4 && len(macros) > 0:
		return macros[r.Intn(len(macros))]
	case k < 5:
		return oddOps[r.Intn(len(oddOps))]
	default:
		s = OpString(RandOp(r, nm))
		if s == "" { // conversions are no operation texts
			s = OpString(RandMap(r))
		}
	}
	if Chance(r, 6) { // damage a character
		b := []byte(s)
		j := r.Intn(len(b))
		switch r.Intn(3) {
		case 0:
			b = append(b[:j:j], b[j+1:]...)
		case 1:
			b[j] = "/=a1.(:-_ "[r.Intn(10)]
		default:
			b = append(b[:j:j], append([]byte{"/=a1.(:-_ "[r.Intn(10)]}, b[j:]...)...)
		}
		for _, x := range b {
			if x >= 128 {
				return s
			}
		}
		s = string(b)
	}
	return s
}

func Wild(t string) bool { // a depreciation over more months than anything real
	ps := strings.Split(t, "/")
	return strings.HasPrefix(t, "depreciate=") && len(ps) == 5 && len(strings.Trim(ps[3], "0123456789")) == 0 && len(strings.TrimLeft(ps[3], "0")) > 3 && len(ps[3]) < 19
}

