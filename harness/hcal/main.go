// hcal records what the program's calendar says about days and date texts.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/mescanne/goledger/book"
	. "verifharness/vh"
)

func main() {
	Main(map[string]Gen{"years": genYears, "texts": genTexts}, exec)
}

func exec(s *Scenario) {
	for i := range s.Ev {
		e := s.Ev[i]
		Guard(e, func() M { return step(e) })
	}
}

func step(e M) M {
	switch Str(e["op"]) {
	case "year":
		y, k, add, ref := Int(e["y"]), Int(e["k"]), Int(e["add"]), book.Date(Int(e["ref"]))
		o := M{}
		put := func(n string, v interface{}) {
			l, _ := o[n].(L)
			o[n] = append(l, v)
		}
		for _, n := range []string{"valid", "no", "back", "since", "plus", "fm", "fq", "fy", "txt", "json", "y", "ym", "yq"} {
			o[n] = L{}
		}
		for m := 0; m <= 99; m++ {
			for d := 0; d <= 99; d++ {
				if book.Date(y*10000 + m*100 + d).IsValid() {
					put("valid", y*10000+m*100+d)
				}
			}
		}
		for m := 1; m <= 12; m++ {
			for d := 1; d <= DaysIn(y, m); d++ {
				x := book.Date(y*10000 + m*100 + d)
				put("no", x.AsDays())
				put("back", int(book.GetDateFromDays(x.AsDays())))
				put("since", x.DaysSince(ref))
				if t := dayNo(y, m, d) + add; t >= 0 && t <= 3652058 {
					put("plus", int(x.AddDays(add)))
				} else {
					put("plus", 0)
				}
				put("fm", int(x.FloorMonth(k)))
				put("fq", int(x.FloorQuarter(k)))
				put("fy", int(x.FloorYear(k)))
				put("txt", x.String())
				b, err := json.Marshal(x)
				var t string
				if err == nil {
					err = json.Unmarshal(b, &t)
				}
				if err != nil {
					t = err.Error()
				}
				put("json", t)
				put("y", x.GetYear())
				put("ym", x.GetYearMonth())
				put("yq", x.GetYearQuarter())
			}
		}
		return o
	case "floor":
		q := L{}
		e["today"] = Today()
		for _, d := range List(e["ds"]) {
			x := book.Date(Int(d))
			if Int(e["k"]) == 0 && Bool(e["plain"]) {
				q = append(q, int(x.Floor(Str(e["by"]))))
			} else {
				q = append(q, int(x.FloorDiff(Str(e["by"]), Int(e["k"]))))
			}
		}
		return M{"q": q}
	case "parse":
		q := L{}
		e["today"] = Today()
		for _, t := range List(e["ts"]) {
			a := book.DateFromString(Str(t))
			var b book.Date
			b.Set(Str(t))
			if a != b {
				a = -1
			}
			q = append(q, int(a))
		}
		return M{"q": q}
	}
	panic("unknown event")
}

// an independent count, only to stay inside the supported years
func dayNo(y, m, d int) int {
	n := 365*(y-1) + (y-1)/4 - (y-1)/100 + (y-1)/400 + d - 1
	for i := 1; i < m; i++ {
		n += DaysIn(y, i)
	}
	return n
}

// genYears: n years.
func genYears(seed int64, tier string, n int) []Scenario {
	r := Rng(seed, "years")
	var ys []int
	if n < 0 { // the -n-th block of 500 years
		for y := -n*500 - 499; y <= -n*500 && y <= 9999; y++ {
			ys = append(ys, y)
		}
	} else {
		ys = []int{1, 2, 3, 4, 5, 8, 99, 100, 101, 104, 199, 200, 300, 399, 400, 401, 499, 500, 800, 1000, 1500, 1582, 1600, 1700, 1752, 1800,
			1899, 1900, 1901, 1904, 1970, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2026, 2027, 2028, 2038, 2099, 2100, 2101, 2200,
			2300, 2400, 4000, 5000, 8000, 9600, 9900, 9995, 9996, 9997, 9998, 9999}
		for len(ys) < n {
			ys = append(ys, 1+r.Intn(9999))
		}
	}
	var out []Scenario
	for i, y := range ys {
		k := []int{0, -1, 1, 2, 3, 4, 5, 11, 12, 13, -11, -12, -13, 25, -40, 120, -3, -4, -5}[r.Intn(19)]
		add := []int{1, -1, 28, 29, 30, 31, 59, 60, 365, 366, -365, -366, 1460, 1461, 36524, 36525, 146096, 146097, -146097, 0}[r.Intn(20)]
		if Chance(r, 30) {
			add = r.Intn(800000) - 400000
		}
		ref := Date(r, append([]int{y}, YearPool...))
		ev := []M{{"op": "year", "y": y, "k": k, "add": add, "ref": ref}}
		ds := L{}
		for j := 0; j < 6; j++ {
			ds = append(ds, Date(r, []int{y}))
		}
		by := Pick(r, "yearly", "quarterly", "monthly", "today", "none")
		ev = append(ev, M{"op": "floor", "by": by, "k": k, "ds": ds, "plain": false}, M{"op": "floor", "by": by, "k": 0, "ds": ds, "plain": true})
		out = append(out, Scenario{ID: fmt.Sprintf("years-%d-%d-%d", seed, i, y), Ev: ev})
	}
	return out
}

func text(r *rand.Rand) string {
	y, m, d := 1+r.Intn(9999), r.Intn(14), r.Intn(33)
	if Chance(r, 70) {
		x := Date(r, YearPool)
		y, m, d = x/10000, x/100%100, x%100
	}
	if Chance(r, 10) {
		y = []int{0, 1, 9999}[r.Intn(3)]
	}
	s := Pick(r, "-", "/", ".", "-", "/")
	s2 := s
	if Chance(r, 10) {
		s2 = Pick(r, "-", "/", ".")
	}
	p := func(n int) string {
		if Chance(r, 50) {
			return fmt.Sprintf("%02d", n)
		}
		return fmt.Sprint(n)
	}
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf("%04d%02d%02d", y, m, d)
	case 1:
		return fmt.Sprintf("%04d%s%s", y, s, p(m))
	case 2:
		return fmt.Sprintf("%04d%02d", y, m)
	case 3:
		return fmt.Sprintf("%04d", y)
	case 4:
		return fmt.Sprintf("%s%s%s%s%04d", p(d), s, p(m), s2, y)
	case 5:
		w := Pick(r, "this", "last", "next", "this", "last", "next", "prev", "Last", "")
		u := Pick(r, "month", "quarter", "year", "month", "quarter", "year", "week", "Month", "years", "")
		g := Pick(r, " ", "_", ".", "\t", "  ", " _.", "", "-", "/")
		return w + g + u
	default:
		return fmt.Sprintf("%04d%s%s%s%s", y, s, p(m), s2, p(d))
	}
}

func genTexts(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("texts-%d", k))
		ts := L{}
		for j := 0; j < 20; j++ {
			t := text(r)
			if Chance(r, 25) { // damage it
				b := []rune(t)
				i := r.Intn(len(b) + 1)
				c := []rune(Pick(r, "0", "9", "3", "-", "/", ".", " ", "x", "é", "٣", "+", "'", "\n"))[0]
				switch r.Intn(3) {
				case 0:
					b = append(b[:i:i], append([]rune{c}, b[i:]...)...)
				case 1:
					if i < len(b) {
						b = append(b[:i:i], b[i+1:]...)
					}
				default:
					if i < len(b) {
						b[i] = c
					}
				}
				t = string(b)
			}
			ts = append(ts, t)
		}
		out = append(out, Scenario{ID: fmt.Sprintf("texts-%d-%d", seed, k), Ev: []M{{"op": "parse", "ts": ts}}})
	}
	return out
}
