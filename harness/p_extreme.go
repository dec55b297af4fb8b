package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
	"pgregory.net/rapid"
)

// genExtreme draws structures with numbers near the limits of what can be represented.
func genExtreme(t *rapid.T) *Spec {
	s := genSpec(t, genOpts{maxNodes: oneOf(t, 2, 3, 4)})
	factor := func() float64 {
		if chance(t, 0.4) {
			return 1
		}
		return math.Pow(10, float64(rapid.IntRange(-300, 300).Draw(t, "decade")))
	}
	lim := func(v float64) float64 { return math.Max(-math.MaxFloat64, math.Min(v, math.MaxFloat64)) }
	pos := func(v float64) float64 { return math.Max(lim(v), 1e-300) }
	lf := 1.0
	if chance(t, 0.3) {
		lf = math.Pow(10, float64(rapid.IntRange(-12, 150).Draw(t, "length")))
	}
	for i := range s.Nodes {
		n := &s.Nodes[i]
		n.X, n.Y, n.Z = lim(n.X*lf), lim(n.Y*lf), lim(n.Z*lf)
	}
	f := factor()
	for i := range s.Mats {
		s.Mats[i].E = pos(s.Mats[i].E * f)
	}
	f = factor()
	for i := range s.CSs {
		n := 2
		if s.CSs[i].Kind != "rectangle" {
			n = 3
		}
		for k := 0; k < n; k++ {
			s.CSs[i].P[k] = pos(s.CSs[i].P[k] * f)
		}
	}
	f = factor()
	for i := range s.Neumann {
		s.Neumann[i].V = lim(s.Neumann[i].V * f)
	}
	if chance(t, 0.3) {
		f = factor()
	}
	for i := range s.Elems {
		for k := range s.Elems[i].Loads {
			l := &s.Elems[i].Loads[k]
			l.V0, l.V1, l.Pos = lim(l.V0*f), lim(l.V1*f), lim(l.Pos*lf)
		}
	}
	f = factor()
	for i := range s.Dirichlet {
		s.Dirichlet[i].V = lim(s.Dirichlet[i].V * f)
	}
	return s
}

func checkExtreme(c *Ctx, s *Spec) error {
	c.NonTrivial(true)
	p, r, err := solveSpec(s)
	_ = p
	if err != nil {
		c.Label("refused", true)
		return nil
	}
	for _, v := range append(append([]deflect.NodalValue{}, r.PrimaryAll()...), r.ReactionAll()...) {
		if !finite(v.Value) {
			return fmt.Errorf("%v is %v", v.Index, v.Value)
		}
	}
	return nil
}
