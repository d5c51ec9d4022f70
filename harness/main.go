//go:build go1.22

// Command verifharness runs properties of the library on concrete inputs: it looks for a failing
// input behind a failed proof obligation, replays it, and cross-checks the contracts on a sample.
// It decides nothing by passing.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// G is the source of choices of one case
type G struct{ *rand.Rand }

func (g *G) dim() int {
	if g.one(20) {
		return 6 + g.Intn(15)
	}
	return []int{0, 1, 1, 2, 2, 3, 3, 4, 5}[g.Intn(9)]
}
func (g *G) pos() int       { return []int{1, 1, 2, 2, 3, 3, 4, 5}[g.Intn(8)] }
func (g *G) coin() bool     { return g.Intn(2) == 0 }
func (g *G) one(n int) bool { return g.Intn(n) == 0 }

type check struct {
	name string
	f    func(g *G) error
}

var props = map[string][]check{}

func reg(prop, name string, f func(g *G) error) {
	props[prop] = append(props[prop], check{name, f})
}

func fail(format string, a ...any) error { return fmt.Errorf(format, a...) }

// panics reports whether f panics
func panics(f func()) (p bool, v any) {
	defer func() {
		if r := recover(); r != nil {
			p, v = true, r
		}
	}()
	f()
	return
}

type outcome struct {
	err   error
	stack string
}

func runCase(c check, seed int64) (o outcome, hung bool) {
	done := make(chan outcome, 1)
	go func() {
		var r outcome
		defer func() {
			if p := recover(); p != nil {
				r.err = fmt.Errorf("unexpected panic: %v", p)
				r.stack = string(debug.Stack())
			}
			done <- r
		}()
		r.err = c.f(&G{rand.New(rand.NewSource(seed))})
	}()
	t := time.NewTimer(20 * time.Second)
	defer t.Stop()
	select {
	case o = <-done:
		return o, false
	case <-t.C:
		return outcome{err: fmt.Errorf("did not return within 20 seconds")}, true
	}
}

type replay struct {
	Property string `json:"property"`
	Check    string `json:"check"`
	Seed     int64  `json:"seed"`
	Failure  string `json:"failure"`
	Stack    string `json:"stack,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seconds := flag.Float64("seconds", 2, "time to search")
	maxCases := flag.Int("cases", 0, "number of cases (0: until the time is over)")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "where to write a failing case")
	progress := flag.String("progress", "", "file that names the case under way")
	list := flag.Bool("list", false, "list the checks")
	rep := flag.String("replay", "", "run the case of this file")
	flag.Parse()
	log.SetOutput(io.Discard)
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var full struct {
			Input *replay `json:"input"`
		}
		var r replay
		json.Unmarshal(b, &full)
		if full.Input != nil {
			r = *full.Input
		} else {
			json.Unmarshal(b, &r)
		}
		for _, c := range props[r.Property] {
			if c.name == r.Check {
				o, _ := runCase(c, r.Seed)
				if o.err != nil {
					fmt.Printf("FAILS %s %s: %v\n", r.Property, r.Check, o.err)
					os.Exit(1)
				}
				fmt.Println("passes")
				return
			}
		}
		fmt.Println("no such case")
		os.Exit(2)
	}
	cs := props[*prop]
	if len(cs) == 0 {
		fmt.Println("no checks for", *prop)
		return
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	if *list {
		for _, c := range cs {
			fmt.Println(c.name)
		}
		return
	}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	end := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	n := 0
	per := map[string]int{}
	buf := make([]byte, 16)
	for ; (*maxCases == 0 || n < *maxCases) && (n < 4*len(cs) || time.Now().Before(end)); n++ {
		c := cs[n%len(cs)]
		s := *seed*1000003 + int64(n)
		if pf != nil {
			binary.LittleEndian.PutUint64(buf, uint64(n%len(cs)))
			binary.LittleEndian.PutUint64(buf[8:], uint64(s))
			pf.WriteAt(buf, 0)
		}
		per[c.name]++
		o, hung := runCase(c, s)
		if o.err != nil {
			r := replay{*prop, c.name, s, o.err.Error(), trim(o.stack)}
			b, _ := json.MarshalIndent(r, "", " ")
			if *out != "" {
				os.WriteFile(*out, b, 0o644)
			}
			fmt.Printf("FAILS %s %s seed %d: %v\n", *prop, c.name, s, o.err)
			_ = hung
			os.Exit(1)
		}
	}
	var names []string
	for k := range per {
		names = append(names, k)
	}
	fmt.Printf("CASES %d in %d checks\n", n, len(names))
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}
