// Command harness decides the properties listed in /verif/properties.jsonl by generated-input search
// against explicit oracles. It only uses the public API of the packages under test.
//
// One process runs one shard of one property:
//
//	harness -prop C01 -tier quick -seed 1 -shard 0 -shards 8 -out stats.json -cur cur.json
//
// or replays one recorded case:
//
//	harness -replay case.json
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// errSkip is returned by a check when a case is inconclusive (e.g. too ill-conditioned to judge). Such
// cases are counted, they are no violations.
type errSkip struct{ why string }

func (e errSkip) Error() string { return "skip: " + e.why }

func isSkip(err error) bool {
	var s errSkip
	return errors.As(err, &s)
}

func skipf(format string, a ...any) error { return errSkip{fmt.Sprintf(format, a...)} }

// Ctx collects statistics about one case while it is checked.
type Ctx struct {
	labels     map[string]bool
	nonTrivial bool
	margin     float64 // largest observed deviation divided by its tolerance
	marginWhat string
}

func (c *Ctx) Label(l string, on bool) {
	if on {
		c.labels[l] = true
	}
}

func (c *Ctx) NonTrivial(b bool) { c.nonTrivial = c.nonTrivial || b }

func (c *Ctx) Margin(what string, m float64) {
	if m > c.margin || m != m {
		c.margin = m
		c.marginWhat = what
	}
}

type subProp struct {
	name            string
	rule            string
	quick, thorough int // number of cases over all shards
	gen             func(t *rapid.T) any
	check           func(c *Ctx, v any) error
	decode          func(data []byte) (any, error)
}

func sub[T any](name, rule string, quick, thorough int,
	gen func(t *rapid.T) T, check func(c *Ctx, v T) error,
) subProp {
	return subProp{
		name: name, rule: rule, quick: quick, thorough: thorough,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(c *Ctx, v any) error { return check(c, v.(T)) },
		decode: func(data []byte) (any, error) {
			var v T
			err := json.Unmarshal(data, &v)
			return v, err
		},
	}
}

var registry = map[string][]subProp{}

func register(prop string, subs ...subProp) { registry[prop] = append(registry[prop], subs...) }

// safely runs f and turns panics into errors.
func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func runOne(sp *subProp, v any) (*Ctx, error) {
	c := &Ctx{labels: map[string]bool{}}
	err := safely(func() error { return sp.check(c, v) })
	return c, err
}

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type subStats struct {
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Margin      float64           `json:"margin"`
	MarginWhat  string            `json:"margin_what"`
	WallS       float64           `json:"wall_s"`
}

type stats struct {
	Property string               `json:"property"`
	Shard    int                  `json:"shard"`
	Subs     map[string]*subStats `json:"subs"`
	Failures []failure            `json:"failures"`
	Infra    []string             `json:"infra"`
}

// tb implements rapid.TB outside of go test.
type tb struct {
	name   string
	failed bool
	msgs   []string
}

type tbStop struct{}

func (t *tb) Helper()                  {}
func (t *tb) Name() string             { return t.name }
func (t *tb) Logf(f string, a ...any)  {}
func (t *tb) Log(a ...any)             {}
func (t *tb) Skipf(f string, a ...any) { panic(tbStop{}) }
func (t *tb) Skip(a ...any)            { panic(tbStop{}) }
func (t *tb) SkipNow()                 { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	t.msgs = append(t.msgs, fmt.Sprintf(f, a...))
}
func (t *tb) Error(a ...any)            { t.failed = true; t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hashSeed(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	s := h.Sum64()
	// Rapid treats zero as "random", and increments seeds by small numbers
	return s&^0xffffffff | uint64(uint32(s))&0x7fffffff | 1
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

var (
	caseStartCPU atomic.Int64 // CPU time at start of current case, -1 when idle
	caseCount    atomic.Int64 // number of cases begun
	curFile      *os.File
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU  = 45 * time.Second // a case takes less than a second
	hangIdle = 100 * time.Second
)

// watchdog ends the process when a case neither ends within its CPU budget nor makes any progress.
func watchdog() {
	var last, idleCPU int64
	var since time.Time
	for {
		time.Sleep(time.Second)
		start, now := caseStartCPU.Load(), int64(cpuTime())
		if start >= 0 && now-start > int64(hangCPU) {
			fmt.Fprintln(os.Stderr, "HANG: a single case exceeded its CPU budget")
			os.Exit(42)
		}
		if n := caseCount.Load(); start < 0 || n != last || now-idleCPU > int64(2*time.Second) {
			last, idleCPU, since = n, now, time.Now()
		} else if time.Since(since) > hangIdle {
			fmt.Fprintln(os.Stderr, "HANG: a single case waits for ever")
			os.Exit(42)
		}
	}
}

// saveCurrent records the case about to be run, so that it isn't lost when the process dies.
func saveCurrent(prop, sub string, data []byte) {
	if curFile == nil {
		return
	}
	f := failure{Property: prop, Sub: sub, Message: "process died", Case: data}
	out, _ := json.Marshal(f)
	curFile.Truncate(0)
	curFile.WriteAt(out, 0)
}

func runSub(prop string, sp *subProp, tier string, seed uint64, shard, shards int, st *stats) {
	total := sp.quick
	if tier == "thorough" {
		total = sp.thorough
	}
	n := total / shards
	if shard < total%shards {
		n++
	}
	ss := &subStats{Labels: map[string]int{}, Rule: sp.rule}
	st.Subs[sp.name] = ss
	if n == 0 {
		return
	}
	start := time.Now()
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(hashSeed(prop, sp.name, seed, shard)))

	var last *failure
	seen := map[uint64]struct{}{}
	t := &tb{name: "verif_" + prop + "_" + sp.name}
	infra := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					infra = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			v := sp.gen(rt)
			data, err := json.Marshal(v)
			if err != nil {
				panic(fmt.Sprintf("harness: case can't be serialised: %v", err))
			}
			saveCurrent(prop, sp.name, data)
			caseCount.Add(1)
			caseStartCPU.Store(int64(cpuTime()))
			c, err := runOne(sp, v)
			caseStartCPU.Store(-1)
			shrinking := last != nil
			if !shrinking {
				ss.Evaluations++
			}
			if isSkip(err) {
				if !shrinking {
					ss.Skipped++
					ss.Labels[err.Error()]++
				}
				return
			}
			if !shrinking {
				for l := range c.labels {
					ss.Labels[l]++
				}
				if c.nonTrivial {
					ss.NonTrivial++
					h := hashBytes(data)
					if _, ok := seen[h]; !ok {
						seen[h] = struct{}{}
						ss.Hashes = append(ss.Hashes, h)
						if len(ss.Samples) < 1 && len(data) < 4000 {
							ss.Samples = append(ss.Samples, data)
						}
					}
				}
				if c.margin > ss.Margin || c.margin != c.margin {
					ss.Margin = c.margin
					ss.MarginWhat = c.marginWhat
				}
			}
			if err != nil {
				// Rapid runs the minimal failing case last, so always overwriting keeps the minimal one.
				last = &failure{Property: prop, Sub: sp.name, Message: err.Error(), Case: data}
				rt.Fatalf("violation")
			}
		})
	}()
	ss.WallS = time.Since(start).Seconds()
	if last != nil {
		st.Failures = append(st.Failures, *last)
	} else if infra != "" {
		st.Infra = append(st.Infra, sp.name+": "+infra)
	} else if t.failed {
		st.Infra = append(st.Infra, sp.name+": "+strings.Join(t.msgs, "\n"))
	}
}

func replay(path string, repeat int) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := range registry[f.Property] {
		sp := &registry[f.Property][i]
		if sp.name != f.Sub {
			continue
		}
		for k := 0; k < repeat; k++ {
			v, err := sp.decode(f.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			caseCount.Add(1)
			caseStartCPU.Store(int64(cpuTime()))
			_, err = runOne(sp, v)
			caseStartCPU.Store(-1)
			if err != nil && !isSkip(err) {
				fmt.Printf("replay fails (%v/%v): %v\n", f.Property, f.Sub, err)
				return 1
			}
		}
		fmt.Println("replay passes")
		return 0
	}
	fmt.Fprintf(os.Stderr, "no sub-property %v/%v\n", f.Property, f.Sub)
	return 2
}

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	only := flag.String("sub", "", "run only this sub-property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	out := flag.String("out", "", "write statistics here")
	cur := flag.String("cur", "", "record the current case here")
	list := flag.Bool("list", false, "list properties")
	rep := flag.String("replay", "", "replay a recorded case")
	repeat := flag.Int("repeat", 30, "number of executions of a replayed case")
	scale := flag.Float64("scale", 1, "multiply the number of cases")
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	log.SetOutput(io.Discard)
	caseStartCPU.Store(-1)
	go watchdog()

	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range registry[id] {
				fmt.Println(id, s.name, s.quick, s.thorough)
			}
		}
		return
	}
	if *rep != "" {
		inTest(func() int { return replay(*rep, *repeat) })
	}
	subs, ok := registry[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *cur != "" {
		f, err := os.Create(*cur)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		curFile = f
	}
	inTest(func() int {
		st := &stats{Property: *prop, Shard: *shard, Subs: map[string]*subStats{}}
		for i := range subs {
			if *only != "" && subs[i].name != *only {
				continue
			}
			sp := subs[i]
			sp.quick = int(float64(sp.quick) * *scale)
			sp.thorough = int(float64(sp.thorough) * *scale)
			runSub(*prop, &sp, *tier, *seed, *shard, *shards, st)
		}
		if *out != "" {
			data, err := json.Marshal(st)
			if err == nil {
				err = os.WriteFile(*out, data, 0o644)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		} else {
			for name, s := range st.Subs {
				fmt.Printf("%v: eval %v skipped %v nontrivial %v distinct %v margin %.2e (%v) %.1fs\n", name, s.Evaluations,
					s.Skipped, s.NonTrivial, len(s.Hashes), s.Margin, s.MarginWhat, s.WallS)
				var ls []string
				for l, n := range s.Labels {
					ls = append(ls, fmt.Sprintf("  %v: %v", l, n))
				}
				sort.Strings(ls)
				fmt.Println(strings.Join(ls, "\n"))
			}
			for _, f := range st.Failures {
				fmt.Printf("FAIL %v/%v: %v\n%s\n", f.Property, f.Sub, f.Message, f.Case)
			}
			for _, f := range st.Infra {
				fmt.Println("INFRA", f)
			}
		}
		if len(st.Failures) > 0 {
			return 1
		} else if len(st.Infra) > 0 {
			return 2
		}
		return 0
	})
}

// inTest runs f within a test, so that code which reports to *testing.T can be run, and ends the process.
func inTest(f func() int) {
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "harness", F: func(t *testing.T) {
		testT = t
		os.Exit(f())
	}}}, nil, nil)
}
