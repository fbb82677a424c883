// Package vh holds what every conformance driver shares: scenarios (sequences
// of events with inputs and, once executed, observations under "o"), reading
// and writing them as JSON lines, and running them with crash and hang guards.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type M = map[string]interface{}
type L = []interface{}

type Scenario struct {
	ID string `json:"id"`
	Ev []M    `json:"ev"`
}

// Rng returns a generator that depends on the seed and a label only.
func Rng(seed int64, label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, label)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

func Pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }
func Chance(r *rand.Rand, pct int) bool      { return r.Intn(100) < pct }

// Clone makes a deep copy through JSON, so that generated and replayed
// scenarios have identical dynamic types.
func Clone(m M) M {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	var n M
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&n); err != nil {
		panic(err)
	}
	return n
}

func Int(v interface{}) int {
	switch x := v.(type) {
	case json.Number:
		i, err := x.Int64()
		if err != nil {
			panic(err)
		}
		return int(i)
	case int:
		return x
	case float64:
		return int(x)
	}
	panic(fmt.Sprintf("not an int: %T %v", v, v))
}
func Str(v interface{}) string {
	if v == nil {
		return ""
	}
	return v.(string)
}
func Bool(v interface{}) bool { b, _ := v.(bool); return b }
func List(v interface{}) L {
	if v == nil {
		return nil
	}
	return v.(L)
}

// Exec executes one scenario in place: for every event it must set ev["o"].
type Exec func(s *Scenario)

// Gen yields the scenarios of one mode.
type Gen func(seed int64, tier string, n int) []Scenario

// Main: -mode M -seed S -tier T -n N -out F    generate and execute
//
//	-replay F -out G                        execute the scenarios of F again
//	-from K                                 start at scenario K (after a crash)
func Main(gens map[string]Gen, exec Exec) { run(gens, exec, 1) }

// MainPar is Main for drivers that keep no state between scenarios and guard
// each event themselves; they execute several scenarios at a time.
func MainPar(gens map[string]Gen, exec Exec) { run(gens, exec, 10) }

// MainN is MainPar with that many at a time.
func MainN(n int, gens map[string]Gen, exec Exec) { run(gens, exec, n) }

func run(gens map[string]Gen, exec Exec, par int) {
	mode := flag.String("mode", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	n := flag.Int("n", 0, "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	genonly := flag.Bool("gen", false, "")
	from := flag.Int("from", 0, "")
	limit := flag.Int("limit", 20, "seconds per scenario")
	flag.Parse()

	var scs []Scenario
	if *replay != "" {
		scs = Read(*replay)
	} else {
		g, ok := gens[*mode]
		if !ok {
			fmt.Fprintf(os.Stderr, "no mode %s\n", *mode)
			os.Exit(3)
		}
		scs = g(*seed, *tier, *n)
	}

	flags := os.O_CREATE | os.O_WRONLY | os.O_TRUNC
	if *from > 0 {
		flags = os.O_CREATE | os.O_WRONLY | os.O_APPEND
	}
	f, err := os.OpenFile(*out, flags, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(f)
	if par > 1 && !*genonly {
		todo := make(chan int)
		var wg sync.WaitGroup
		for p := 0; p < par; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range todo {
					for i := range scs[k].Ev {
						scs[k].Ev[i] = Clone(scs[k].Ev[i])
						delete(scs[k].Ev[i], "o")
					}
					exec(&scs[k])
				}
			}()
		}
		for k := *from; k < len(scs); k++ {
			todo <- k
		}
		close(todo)
		wg.Wait()
		e := json.NewEncoder(w)
		for k := *from; k < len(scs); k++ {
			if err := e.Encode(scs[k]); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		w.Flush()
		f.Close()
		return
	}
	for k := *from; k < len(scs); k++ {
		s := scs[k]
		for i := range s.Ev {
			s.Ev[i] = Clone(s.Ev[i])
			delete(s.Ev[i], "o")
		}
		if !*genonly {
			// progress marker: tells the runner where a crash or hang happened
			pf := *out + ".at"
			cur, _ := json.Marshal(s)
			if err := os.WriteFile(pf, []byte(fmt.Sprintf("%d\n%s\n", k, cur)), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			done := make(chan bool, 1)
			go func() {
				select {
				case <-done:
				case <-time.After(time.Duration(*limit) * time.Second):
					w.Flush()
					fmt.Fprintf(os.Stderr, "HANG scenario %d %s\n", k, s.ID)
					os.Exit(78)
				}
			}()
			exec(&s)
			done <- true
		}
		b, err := json.Marshal(s)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	f.Close()
	os.Remove(*out + ".at")
}

func Read(file string) []Scenario {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	var out []Scenario
	d := json.NewDecoder(bufio.NewReader(f))
	d.UseNumber()
	for d.More() {
		var s Scenario
		if err := d.Decode(&s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out = append(out, s)
	}
	return out
}

// Guard runs one event; a panic becomes the observation {"panic": text}.
func Guard(ev M, f func() M) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
			}
			ev["o"] = M{"panic": msg}
		}
	}()
	ev["o"] = f()
}

// Today is the current date as the integer yyyymmdd, from the clock itself.
func Today() int {
	n := time.Now()
	return n.Year()*10000 + int(n.Month())*100 + n.Day()
}

// Key is a canonical text of an event.
func Key(m M) string {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}
