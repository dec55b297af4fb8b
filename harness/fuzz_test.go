package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// FuzzProperty drives the generators and oracles of one sub-check by coverage-guided fuzzing: the fuzzer mutates the
// stream of random numbers the generator draws from, and keeps what reaches new code. VERIF_FUZZ names the
// sub-check (C01/theory), VERIF_FUZZ_OUT a directory for failing cases and statistics.
func FuzzProperty(f *testing.F) {
	prop, name, _ := strings.Cut(os.Getenv("VERIF_FUZZ"), "/")
	out := os.Getenv("VERIF_FUZZ_OUT")
	var sp *subProp
	for i := range registry[prop] {
		if registry[prop][i].name == name {
			sp = &registry[prop][i]
		}
	}
	if sp == nil {
		f.Skip("no such sub-check")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(int64(hashSeed(prop, name, seed, "fuzz"))))
	// Generators draw as much as they want, so that no case is thrown away for being too short
	tail := make([]byte, 1<<16)
	rng.Read(tail)
	for i := 0; i < 48; i++ {
		data := make([]byte, 1<<(6+i%8))
		rng.Read(data)
		f.Add(data)
	}
	type counts struct{ Execs, Evaluations, Skipped, NonTrivial int }
	var n counts
	write := func(file string, v any) {
		data, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		tmp := filepath.Join(out, fmt.Sprintf(".%d", os.Getpid()))
		if os.WriteFile(tmp, data, 0o644) == nil {
			os.Rename(tmp, filepath.Join(out, file))
		}
	}
	run := rapid.MakeFuzz(func(t *rapid.T) {
		v := sp.gen(t)
		data, err := json.Marshal(v)
		if err != nil {
			panic(fmt.Sprintf("harness: case can't be serialised: %v", err))
		}
		write(fmt.Sprintf("current-%d.json", os.Getpid()), failure{prop, sp.name, "process died", data})
		c, err := runOne(sp, v)
		n.Evaluations++
		if isSkip(err) {
			n.Skipped++
			return
		}
		if c.nonTrivial {
			n.NonTrivial++
		}
		if err != nil {
			write("failure.json", failure{prop, sp.name, err.Error(), data})
			t.Fatalf("violation: %v", err)
		}
	})
	f.Fuzz(func(t *testing.T, data []byte) {
		n.Execs++
		if n.Execs%50 == 0 {
			write(fmt.Sprintf("counts-%d.json", os.Getpid()), n)
		}
		run(t, append(data[:len(data):len(data)], tail...))
	})
}
