package vh

import (
	"regexp"
	"strings"
)

// Strs reads a JSON list of texts.
func Strs(v interface{}) []string {
	var out []string
	for _, x := range List(v) {
		out = append(out, Str(x))
	}
	return out
}

// RxTables records what the expressions that occur in operation texts do to
// names: rx[re] = {m: names matched, r: {template: {name: result}}}; an
// expression that does not compile is absent.  Names grow by what operations
// may rename to, in the order in which the texts are applied.
func RxTables(ops []string, macros map[string][]string, names map[string]bool) M {
	var flat []string
	var expand func(op string, depth int)
	expand = func(op string, depth int) {
		if m, ok := macros[op]; ok {
			if depth < 12 && len(flat) < 2000 {
				for _, x := range m {
					expand(x, depth+1)
				}
			}
			return
		}
		flat = append(flat, op)
	}
	for _, op := range ops {
		expand(op, 0)
	}
	type use struct{ re, rep string }
	var uses []use
	for _, op := range flat {
		ps := strings.Split(op, "/")
		if len(ps) < 4 {
			continue
		}
		re, err := regexp.Compile(ps[1])
		if err != nil {
			continue
		}
		uses = append(uses, use{ps[1], ps[2]})
		if len(names) < 400 {
			for n := range copyOf(names) {
				if x := re.ReplaceAllString(n, ps[2]); len(x) < 300 {
					names[x] = true
				}
			}
			names[ps[3]] = true
		}
	}
	rx := M{}
	for _, u := range uses {
		re := regexp.MustCompile(u.re)
		t, ok := rx[u.re].(M)
		if !ok {
			m := M{}
			for n := range names {
				if re.MatchString(n) {
					m[n] = true
				}
			}
			t = M{"m": m, "r": M{}}
			rx[u.re] = t
		}
		r := M{}
		for n := range names {
			r[n] = re.ReplaceAllString(n, u.rep)
		}
		t["r"].(M)[u.rep] = r
	}
	return rx
}

func copyOf(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

// Matches is the set of names an expression matches; ok is false when it is none.
func Matches(re string, names map[string]bool) (M, bool) {
	x, err := regexp.Compile(re)
	if err != nil {
		return M{}, false
	}
	t := M{}
	for n := range names {
		if x.MatchString(n) {
			t[n] = true
		}
	}
	return t, true
}
