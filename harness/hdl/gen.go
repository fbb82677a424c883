package main

import (
	"fmt"
	"math/rand"

	. "verifharness/vh"
)

const day = 86400

func fileEvent(r *rand.Rand, kind string) M {
	tok := map[string]string{"monzo": Pick(r, "good", "good", "old"), "starling": "none", "nordigen": "inst"}[kind]
	return M{"op": "file", "kind": kind, "form": Pick(r, "json", "gz"), "at": Pick(r, "plain", "plain", "deep", "link"), "tok": tok}
}

var faults = []string{"500", "403", "429", "202", "204", "garbage", "html", "cut", "noid", "numid", "noauth"}

func fault(r *rand.Rand, most int) M {
	return M{"n": 1 + r.Intn(most), "kind": Pick(r, faults...)}
}

func syncEv(r *rand.Rand, pct, most int) M {
	e := M{"op": "sync", "all": Chance(r, 20)}
	if Chance(r, pct) {
		e["fault"] = fault(r, most)
	}
	return e
}

// a damaged state file in between
func spoilt(r *rand.Rand, ev []M, form string) []M {
	how := Pick(r, "cut", "empty", "junk")
	if form == "json" && Chance(r, 30) {
		how = "tail"
	}
	return append(ev, M{"op": "spoil", "how": how}, M{"op": "sync", "all": false}, M{"op": "spoil", "how": "undo"})
}

// ------------------------------------------------------------------- histories

type hist struct {
	r     *rand.Rand
	kind  string
	clock int // the present of the bank
	ids   int
	b     M
	accts []M
}

func (h *hist) bank() M { return Clone(h.b) }

func (h *hist) id(p string) string {
	h.ids++
	return fmt.Sprintf("%s%d%s", p, h.ids, Pick(h.r, "", "x", "-é", " b"))
}

func upd(v L, at int, x interface{}) L { v[at] = x; return v }

// new versions of some items
func (h *hist) touch(l L, pct int, move bool) L {
	out := L{}
	for _, y := range l {
		z := append(L{}, y.(L)...)
		if Chance(h.r, pct) {
			z[2] = z[2].(int) + 1
			if move {
				z[1] = h.clock - h.r.Intn(2*day)
			}
		}
		out = append(out, z)
	}
	return out
}

func drop(r *rand.Rand, l L, pct int) L {
	out := L{}
	for _, y := range l {
		if !Chance(r, pct) {
			out = append(out, y)
		}
	}
	return out
}

func (h *hist) evolve() {
	r := h.r
	for i, a := range h.accts {
		switch h.kind {
		case "monzo":
			a["items"] = append(drop(r, h.touch(a["items"].(L), 20, false), 3), h.monzoItems(r.Intn(6), h.clock)...)
			if Chance(r, 30) {
				a["v"] = a["v"].(int) + 1
			}
		case "nordigen":
			a["items"] = append(drop(r, h.touch(a["items"].(L), 20, false), 10), h.some(r.Intn(4), h.clock)...)
			if Chance(r, 40) { // what was pending is booked
				a["items"] = append(a["items"].(L), a["pending"].(L)...)
				a["pending"] = h.some(r.Intn(3), h.clock)
			}
			for _, k := range []string{"basic", "details"} {
				if Chance(r, 40) {
					a[k] = a[k].(int) + 1
				}
			}
		case "starling":
			fs := L{}
			for _, y := range a["feeds"].(L) {
				f := y.(M)
				its := drop(r, h.touch(f["items"].(L), 15, true), 3)
				fs = append(fs, M{"cat": f["cat"], "items": append(its, h.lagged(r.Intn(4))...)})
			}
			a["feeds"] = fs
			for _, k := range []string{"v", "ident", "spaces"} {
				if Chance(r, 30) {
					a[k] = a[k].(int) + 1
				}
			}
			if Chance(r, 25) {
				h.space(a)
			}
			if g := a["goals"].(L); len(g) > 0 && Chance(r, 15) { // a space is closed
				a["goals"], a["spaces"] = append(L{}, g[1:]...), a["spaces"].(int)+1
			}
		}
		if i > 0 && Chance(r, 12) {
			a["listed"] = !a["listed"].(bool)
			h.b["req"] = h.b["req"].(int) + 1
		}
	}
	if Chance(r, 15) && len(h.accts) < 3 {
		h.account()
	}
	if Chance(r, 50) {
		h.b["payees"] = h.b["payees"].(int) + 1
	}
	if Chance(r, 30) {
		h.b["req"] = h.b["req"].(int) + 1
	}
	h.fill()
}

func (h *hist) fill() {
	l := L{}
	for _, a := range h.accts {
		l = append(l, a)
	}
	h.b["accounts"] = l
}

func (h *hist) some(n, t int) L {
	l := L{}
	for ; n > 0; n-- {
		l = append(l, L{h.id("t"), t - h.r.Intn(30*day), 1})
	}
	return l
}

// transactions one after the other, up to time t
func (h *hist) monzoItems(n, t int) L {
	l := L{}
	for k := 0; k < n; k++ {
		l = append(l, L{h.id("tx_"), t - (n-k)*h.r.Intn(90), 1, 0})
	}
	return l
}

// n transactions with gaps of the kinds that matter, the last at time t
func (h *hist) layout(n, t int) L {
	r := h.r
	style := r.Intn(4)
	l := make(L, n)
	for k := n - 1; k >= 0; k-- {
		l[k] = L{h.id("tx_"), t, 1, 0}
		switch style {
		case 0: // a bulk within a minute
			t -= r.Intn(2) * r.Intn(2)
		case 1:
			t -= r.Intn(3)
		case 2:
			t -= []int{0, 1, 30, 59, 60, 61, 120}[r.Intn(7)]
		default:
			t -= r.Intn(2 * 3600)
		}
	}
	return l
}

func (h *hist) lagged(n int) L {
	l := L{}
	for ; n > 0; n-- {
		lag := h.r.Intn(19 * day)
		if Chance(h.r, 40) {
			lag = h.r.Intn(2 * day)
		}
		if Chance(h.r, 8) {
			lag = 22*day + h.r.Intn(20*day)
		}
		l = append(l, L{h.id("f"), h.clock - lag, 1})
	}
	return l
}

func (h *hist) space(a M) {
	c := h.id("cat")
	k := Pick(h.r, "goals", "spend")
	a[k] = append(a[k].(L), c)
	a["spaces"] = a["spaces"].(int) + 1
	a["feeds"] = append(a["feeds"].(L), M{"cat": c, "items": h.lagged(h.r.Intn(4))})
}

func (h *hist) account() {
	r := h.r
	a := M{"id": fmt.Sprintf("acc_%d", len(h.accts)+1), "listed": true}
	switch h.kind {
	case "monzo":
		a["v"] = 1
		n := r.Intn(12)
		if Chance(r, 40) {
			n = []int{99, 100, 101, 150, 199, 200, 201, 250, 260}[r.Intn(9)]
		}
		a["items"] = h.layout(n, h.clock)
		if Chance(r, 40) {
			a["items"] = append(h.layout(1+r.Intn(6), -100*day-r.Intn(300*day)), a["items"].(L)...)
		}
	case "nordigen":
		a["basic"], a["details"] = 1, 1
		a["items"], a["pending"] = h.some(r.Intn(6), h.clock), h.some(r.Intn(3), h.clock)
	case "starling":
		a["v"], a["ident"], a["spaces"] = 1, 1, 1
		a["created"] = -400 * day
		a["main"] = h.id("cat")
		a["goals"], a["spend"] = L{}, L{}
		a["feeds"] = L{M{"cat": a["main"], "items": h.lagged(r.Intn(6))}}
		for k := r.Intn(3); k > 0; k-- {
			h.space(a)
		}
	}
	h.accts = append(h.accts, a)
	h.b["req"] = h.b["req"].(int) + 1
}

func newHist(r *rand.Rand, kind string) *hist {
	h := &hist{r: r, kind: kind, b: M{"op": "bank", "kind": kind, "payees": 1, "req": 1, "pad": 0, "insts": 1 + r.Intn(3), "expires": 86400}}
	if Chance(r, 20) {
		h.b["expires"] = 0
	}
	h.b["old"], h.b["incl"], h.b["desc"] = Pick(r, "all", "all", "window"), Chance(r, 60), Chance(r, 50)
	h.clock = -200 * day
	if kind == "monzo" {
		h.clock = -40 * day
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		h.account()
	}
	if kind != "monzo" && Chance(r, 10) {
		h.accts = nil
	}
	h.fill()
	return h
}

func history(kind string, syncs int) func(seed int64, tier string, n int) []Scenario {
	return func(seed int64, tier string, n int) []Scenario {
		var out []Scenario
		for k := 0; k < n; k++ {
			r := Rng(seed, fmt.Sprintf("%s-%d", kind, k))
			h := newHist(r, kind)
			f := fileEvent(r, kind)
			ev := []M{f}
			if kind == "nordigen" && Chance(r, 40) {
				f["tok"] = "none"
				ev = append(ev, h.bank(), M{"op": "init", "country": "GB", "pick": fmt.Sprint(r.Intn(Int(h.b["insts"])))})
				if Chance(r, 30) {
					ev[2]["pick"] = Pick(r, "-1", "7", "x", fmt.Sprint(Int(h.b["insts"])))
					if Chance(r, 50) {
						ev[2]["fault"] = M{"n": 1 + r.Intn(3), "kind": Pick(r, "500", "garbage", "cut", "html")}
					}
					ev = append(ev, M{"op": "init", "country": "DE", "pick": "0"})
				}
			}
			ev = append(ev, h.bank())
			most := map[string]int{"monzo": 6, "starling": 12, "nordigen": 9}[kind]
			ev = append(ev, syncEv(r, 15, most))
			if Chance(r, 15) {
				ev = append(ev, syncEv(r, 0, 1))
				ev = spoilt(r, ev, Str(f["form"]))
			}
			for s := 1 + r.Intn(syncs); s > 0; s-- {
				h.clock += h.r.Intn(25 * day)
				if kind == "monzo" {
					h.clock += 60
				}
				if h.clock > -day {
					h.clock = -day
				}
				h.evolve()
				ev = append(ev, h.bank(), syncEv(r, 40, most))
				if Chance(r, 40) {
					ev = append(ev, syncEv(r, 10, most))
				}
			}
			ev = append(ev, M{"op": "sync", "all": false}, M{"op": "sync", "all": Chance(r, 50)})
			out = append(out, Scenario{ID: fmt.Sprintf("%s-%d-%d", kind, seed, k), Ev: ev})
		}
		return out
	}
}

var genMonzo, genStarling, genNordigen = history("monzo", 2), history("starling", 3), history("nordigen", 3)

func genLogin(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("login-%d", k))
		h := newHist(r, "monzo")
		f := fileEvent(r, "monzo")
		f["tok"] = "none"
		ev := []M{f, h.bank()}
		for j := r.Intn(3); j > 0; j-- {
			e := M{"op": "login", "answer": Pick(r, "forged", "nocode", "right")}
			if Str(e["answer"]) == "right" {
				e["fault"] = M{"n": 1, "kind": Pick(r, "500", "garbage", "html", "cut")}
			}
			ev = append(ev, e)
		}
		ev = append(ev, M{"op": "login", "answer": "right"}, syncEv(r, 20, 5), M{"op": "sync", "all": false})
		out = append(out, Scenario{ID: fmt.Sprintf("login-%d-%d", seed, k), Ev: ev})
	}
	return out
}

// saves with one file operation failing, each after a change at the bank
func genSave(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	for k := 0; k < n; k++ {
		r := Rng(seed, fmt.Sprintf("save-%d", k))
		kind := Pick(r, "starling", "starling", "monzo", "nordigen")
		h := newHist(r, kind)
		h.b["old"] = "all"
		if len(h.accts) > 1 {
			h.accts = h.accts[:1]
		}
		for _, a := range h.accts {
			if kind == "monzo" {
				a["items"] = h.layout(r.Intn(20), h.clock)
			}
			if kind == "starling" {
				a["goals"], a["spend"] = L{}, L{}
			}
		}
		if kind == "starling" && Chance(r, 60) {
			h.accts = nil
		}
		h.fill()
		h.b["pad"] = []int{0, 10, 5000, 200000}[r.Intn(4)]
		f := fileEvent(r, kind)
		ev := []M{f, h.bank()}
		if Chance(r, 80) {
			ev = append(ev, M{"op": "sync", "all": false})
		}
		two := Str(f["tok"]) == "old"
		at := 0
		for j := 4 + r.Intn(5); j > 0; j-- {
			h.b["payees"], h.b["req"] = Int(h.b["payees"])+1, Int(h.b["req"])+1
			for _, a := range h.accts {
				switch kind {
				case "monzo":
					a["items"] = append(a["items"].(L), h.monzoItems(1, h.clock)...)
				case "nordigen":
					a["items"] = append(a["items"].(L), h.some(1, h.clock)...)
				case "starling":
					a["v"] = Int(a["v"]) + 1
				}
			}
			h.fill()
			e := M{"op": "save", "n": 0, "act": "none", "two": two}
			if at > 0 || Chance(r, 50) {
				at++
				if Chance(r, 50) || at > 18 {
					at = 1 + r.Intn(18)
				}
				e["n"], e["act"] = at, Pick(r, "kill", "kill", "killafter", "short", "full", "5", "13", "28", "4", "122", "30", "18", "24")
			}
			two = false
			ev = append(ev, h.bank(), e)
			if Chance(r, 30) {
				ev = append(ev, M{"op": "sync", "all": false})
			}
		}
		out = append(out, Scenario{ID: fmt.Sprintf("save-%d-%d", seed, k), Ev: ev})
	}
	return out
}

// genMix: scenarios of every kind but saves (they mostly wait, so run together)
func genMix(seed int64, tier string, n int) []Scenario {
	var out []Scenario
	q := n / 10
	for _, g := range []struct {
		g Gen
		n int
	}{{genStarling, 2 * q}, {genMonzo, 3 * q}, {genNordigen, 3 * q}, {genLogin, n - 8*q}} {
		out = append(out, g.g(seed, tier, g.n)...)
	}
	return out
}
