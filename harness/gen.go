package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"pgregory.net/rapid"
)

// All random choices come from rapid generators, so that cases shrink and runs are reproducible.

var gen20 = rapid.Uint32Range(0, 1<<20-1)

// frac draws from [0, 1). Simple binary fractions are likely, and zero is the simplest value.
func frac(t *rapid.T) float64 {
	return float64(bits.Reverse32(gen20.Draw(t, "f"))>>12) / (1 << 20)
}

// pick draws from 0..n-1.
func pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	return int(frac(t) * float64(n))
}

func oneOf[T any](t *rapid.T, xs ...T) T { return xs[pick(t, len(xs))] }

// chance is true with probability p, false is the simpler value.
func chance(t *rapid.T, p float64) bool { return frac(t) >= 1-p }

// between draws from [a, b).
func between(t *rapid.T, a, b float64) float64 { return a + (b-a)*frac(t) }

// logBetween draws from [a, b), log-uniformly.
func logBetween(t *rapid.T, a, b float64) float64 {
	return math.Exp(math.Log(a) + (math.Log(b)-math.Log(a))*frac(t))
}

// signed draws from (-1, 1) without values close to zero.
func signed(t *rapid.T) float64 {
	v := 0.1 + 0.9*frac(t)
	if chance(t, 0.5) {
		return -v
	}
	return v
}

type genOpts struct {
	families  []string
	maxNodes  int
	noHinges  bool
	noLinks   bool
	noSettle  bool // no non-zero Dirichlet values
	noLoads   bool // neither nodal nor element loads
	noElLoads bool
	oddIDs    bool
	maxCond   float64
	crowded   bool // supports in many nodes
	shortIDs  bool // two-character element IDs when possible (for inference)
}

var allFamilies = []string{"frame2d", "mix2d", "truss2d", "truss3d", "mix3d"}

var oddNodeIDs = []string{
	"10", "9", "1", "2", "A", "a", "AB", "ABC", "Node 1", "ä", "節", "x\"y", "b\\c", "B", "-1", "1.5",
	"null", "Ux", "z/Uz", " ", "e\tf", "0", "00", "é",
}

// nameClusters lists names that are easily taken for each other. All of them are different.
var nameClusters = [][]string{
	{"n1", "N1", "n1 ", " n1", "n 1", "n01", "n1.0", "n10", "n11", "1n", "n1/", "n1/Ux", "n", "n1n1"},
	{"A", "a", "AA", "Aa", "aA", "aa", "A ", "\u0391", "\u0410", "A\u0301", "\u00c1", "AB", "A\u200b", "A\x00"},
	{"1", "01", "1.0", "1e0", "+1", " 1", "\uff11", "10", "-1", "1,", "11", "0x1", "1\n", "\u0661"},
	{"\u00e9", "e\u0301", "e", "E", "\u00c9", "\u00e8", "\u00ea", "ee", "e\u0300", "\u00e9\u00e9", "\u0435", "e'", "e\u0302", "eE"},
	{"ss", "\u00df", "SS", "s", "S", "\u017f", "k", "K", "\u212a", "kk", "\u017f\u017f", "sS", "\u1e9e", "i"},
}

// similarNames returns different but easily confused names.
func similarNames(t *rapid.T, n int) []string {
	if chance(t, 0.1) { // very long ones that differ at the end, or in length only
		var out []string
		prefix := strings.Repeat(oneOf(t, "x", "ab", "node ", "\u00e9"), oneOf(t, 20, 70, 140, 300))
		for i := 0; i < n; i++ {
			out = append(out, prefix+strings.Repeat("x", i%2)+fmt.Sprint(i/2))
		}
		return out
	}
	cluster := nameClusters[pick(t, len(nameClusters))]
	start, step := pick(t, len(cluster)), oneOf(t, 1, 3, 5)
	if len(cluster)%step == 0 {
		step = 1
	}
	var out []string
	for i := 0; i < n; i++ {
		name := cluster[(start+i*step)%len(cluster)]
		if i >= len(cluster) {
			name = fmt.Sprintf("%s%d", name, i/len(cluster))
			for contains(out, name) {
				name += "'"
			}
		}
		out = append(out, name)
	}
	return out
}

var angleChoices = []float64{0, math.Pi / 4, math.Pi / 6, math.Pi / 2, -math.Pi / 3, math.Pi, 3 * math.Pi / 4}

// few is a number below n, and once in a while a larger one below many.
func few(t *rapid.T, n, many int) int {
	if chance(t, 0.05) {
		return pick(t, many)
	}
	return pick(t, n)
}

func genAngle(t *rapid.T) float64 {
	if chance(t, 0.3) {
		return oneOf(t, angleChoices...)
	}
	if chance(t, 0.04) { // close to an axis
		return float64(pick(t, 5))*math.Pi/2 + oneOf(t, 1e-2, -1e-2, 1e-3, -1e-3, 1e-4, -1e-5, 1e-6, -1e-7)
	}
	if chance(t, 0.08) { // more than a full turn
		return oneOf(t, 7, -9.5, 2.5*math.Pi, -3*math.Pi, 30, -45, 90, 270, 360, 1e3)
	}
	return between(t, -2*math.Pi, 2*math.Pi)
}

var beamHingePatterns = [][]Hinge{
	{{0, "Uz"}}, {{0, "Phiy"}}, {{1, "Uz"}}, {{1, "Phiy"}},
	{{0, "Phiy"}, {1, "Uz"}}, {{0, "Phiy"}, {1, "Phiy"}}, {{0, "Uz"}, {1, "Phiy"}},
}

func genHinges(t *rapid.T, kind string) []Hinge {
	var out []Hinge
	if kind == "frame2d" && chance(t, 0.85) {
		out = append(out, beamHingePatterns[pick(t, len(beamHingePatterns))]...)
	}
	if chance(t, 0.25) || len(out) == 0 {
		out = append(out, Hinge{pick(t, 2), "Ux"})
	}
	return out
}

// genSection draws a cross section for a structure with typical member length l.
func genSection(t *rapid.T, id string, l float64) CS {
	if chance(t, 0.5) {
		h := l * logBetween(t, 0.03, 0.25)
		return CS{id, "rectangle", []float64{h * between(t, 0.3, 2.5), h, oneOf(t, 0, 0, 0.5, 1.2, 90, 135, 270)}}
	}
	A := l * l * logBetween(t, 1e-4, 1e-2)
	Iyy := A * l * l / logBetween(t, 30, 5000)
	return CS{id, "constants", []float64{A, Iyy, Iyy * between(t, 0.2, 3), oneOf(t, 0, Iyy*0.7), oneOf(t, 0, 0, 0.3, math.Pi/2, 3, 100)}}
}

// genGeometry draws nodes, elements, materials and sections.
func genGeometry(t *rapid.T, family string, o *genOpts) *Spec {
	s := &Spec{}
	maxNodes := o.maxNodes
	if maxNodes == 0 {
		maxNodes = 6
		if chance(t, 0.015) {
			maxNodes = 13
		}
	}
	scale := oneOf(t, 1.0, 1.0, 4.0, 0.25, 20, 1.5, 2)
	n := 2 + pick(t, maxNodes-1)
	is3d := family == "truss3d" || family == "mix3d"
	grid := chance(t, 0.35)
	y0 := 0.0
	if chance(t, 0.3) {
		y0 = scale * between(t, -3, 3)
	}
	for i := 0; i < n; i++ {
		var nd Node
		for try := 0; ; try++ {
			if grid {
				nd = Node{X: scale * float64(pick(t, 5)-1), Z: scale * float64(pick(t, 5)-1)}
			} else {
				nd = Node{X: scale * between(t, -2.5, 2.5), Z: scale * between(t, -2.5, 2.5)}
			}
			nd.Y = y0
			if is3d {
				if family == "mix3d" {
					nd.Y = scale * float64(oneOf(t, 0, 1, -1)) * 1.25
				} else if grid {
					nd.Y = scale * float64(pick(t, 3)-1)
				} else {
					nd.Y = scale * between(t, -2, 2)
				}
			}
			if try > 4 {
				nd.X += scale * 3.1 * float64(i+try)
			}
			ok := true
			for _, other := range s.Nodes {
				if math.Hypot(math.Hypot(other.X-nd.X, other.Y-nd.Y), other.Z-nd.Z) < 0.35*scale {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		s.Nodes = append(s.Nodes, nd)
	}
	// IDs
	alike := o.oddIDs && chance(t, 0.3)
	if alike {
		for i, name := range similarNames(t, len(s.Nodes)) {
			s.Nodes[i].ID = name
		}
	} else if o.oddIDs && chance(t, 0.6) {
		start := pick(t, len(oddNodeIDs))
		for i := range s.Nodes {
			s.Nodes[i].ID = oddNodeIDs[(start+i*7)%len(oddNodeIDs)]
			if i >= len(oddNodeIDs) {
				s.Nodes[i].ID += fmt.Sprintf("#%d", i)
			}
		}
	} else {
		for i := range s.Nodes {
			s.Nodes[i].ID = string(rune('A' + i))
		}
	}
	nm, nc := 1+few(t, 2, 6), 1+few(t, 3, 8)
	E0 := logBetween(t, 1e7, 3e11)
	for i := 0; i < nm; i++ {
		s.Mats = append(s.Mats, Mat{fmt.Sprintf("m%d", i), E0 * between(t, 0.5, 2), between(t, oneOf(t, 0, 0, -0.9), 0.5), between(t, 0, 8000)})
	}
	for i := 0; i < nc; i++ {
		s.CSs = append(s.CSs, genSection(t, fmt.Sprintf("c%d", i), scale))
	}
	var elemNames []string
	if alike {
		for i, name := range similarNames(t, nm) {
			s.Mats[i].ID = name
		}
		for i, name := range similarNames(t, nc) {
			s.CSs[i].ID = name
		}
		if chance(t, 0.6) {
			elemNames = similarNames(t, 40)
		}
	}
	addElem := func(a, b int) {
		kind := ""
		switch family {
		case "frame2d", "truss2d", "truss3d":
			kind = family
		case "mix2d":
			kind = oneOf(t, "frame2d", "frame2d", "truss2d")
		case "mix3d":
			if s.Nodes[a].Y == s.Nodes[b].Y {
				kind = oneOf(t, "frame2d", "truss3d", "truss2d", "frame2d")
			} else {
				kind = "truss3d"
			}
		}
		if chance(t, 0.5) {
			a, b = b, a
		}
		e := Elem{Kind: kind, N0: s.Nodes[a].ID, N1: s.Nodes[b].ID, Mat: s.Mats[pick(t, nm)].ID, CS: s.CSs[pick(t, nc)].ID}
		if len(s.Elems) < len(elemNames) {
			e.ID = elemNames[len(s.Elems)]
		} else if o.oddIDs && chance(t, 0.3) {
			e.ID = fmt.Sprintf("%s→%d", e.N0+e.N1, len(s.Elems))
		} else {
			e.ID = fmt.Sprintf("e%d", len(s.Elems))
		}
		if !o.noHinges {
			p := 0.35
			if kind != "frame2d" {
				p = 0.08
			}
			if chance(t, p) {
				e.Hinges = genHinges(t, kind)
			}
		}
		s.Elems = append(s.Elems, e)
	}
	for i := 1; i < n; i++ {
		if chance(t, 0.07) && i > 1 {
			continue // unconnected parts and unused nodes are fine
		}
		addElem(pick(t, i), i)
	}
	if len(s.Elems) == 0 {
		addElem(0, 1)
	}
	extra := pick(t, n)
	if family == "truss2d" || family == "truss3d" || family == "mix3d" {
		extra += pick(t, n+2)
	}
	for i := 0; i < extra; i++ {
		a := pick(t, n)
		b := pick(t, n)
		if a == b {
			continue
		}
		addElem(a, b)
	}
	return s
}

func (s *Spec) isFixed(k dofKey) bool {
	for _, d := range s.Dirichlet {
		if d.Node == k.Node && d.Dof == k.Dof {
			return true
		}
	}
	return false
}

func (s *Spec) linked(k dofKey) bool {
	for _, l := range s.Links {
		if l.Node == k.Node && (l.From == k.Dof || l.To == k.Dof) {
			return true
		}
	}
	return false
}

// genSupports draws boundary conditions and then adds as many as needed for a stable structure.
func genSupports(t *rapid.T, s *Spec, o *genOpts) {
	dofs := s.dofs()
	settle := func() bool { return false }
	if !o.noSettle {
		switch pick(t, 4) {
		case 2:
			settle = func() bool { return true }
		case 3:
			settle = func() bool { return chance(t, 0.5) }
		}
	}
	lref := s.length(&s.Elems[0])
	value := func(d string) float64 {
		if !settle() {
			return 0
		}
		v := 0.01 * signed(t)
		if d != "Phiy" {
			v *= lref
		}
		return v
	}
	used := []string{}
	for _, n := range s.Nodes {
		for _, d := range dofs {
			if d.Node == n.ID {
				used = append(used, n.ID)
				break
			}
		}
	}
	if !o.noLinks && chance(t, 0.4) {
		nl := 1 + few(t, 2, 9)
		if chance(t, 0.1) {
			nl += 2
		}
		for i := 0; i < nl; i++ {
			node := used[pick(t, len(used))]
			var tr []string
			for _, d := range dofs {
				if d.Node == node && d.Dof != "Phiy" && !s.linked(d) {
					tr = append(tr, d.Dof)
				}
			}
			if len(tr) < 2 {
				continue
			}
			f := pick(t, len(tr))
			g := (f + 1 + pick(t, len(tr)-1)) % len(tr)
			s.Links = append(s.Links, Link{node, tr[f], tr[g], genAngle(t)})
			if len(tr) == 3 && chance(t, 0.35) {
				// A second support on the same node, in the axes turned by the first one
				h := 3 - f - g
				s.Links = append(s.Links, Link{node, tr[f], tr[h], genAngle(t)})
			}
		}
	}
	fix := func(k dofKey) {
		if !s.isFixed(k) && !s.linked(k) {
			s.Dirichlet = append(s.Dirichlet, BC{k.Node, k.Dof, value(k.Dof)})
		}
	}
	ns, p := 1+pick(t, 2), 0.7
	if o.crowded || chance(t, 0.02) {
		ns, p = len(used), oneOf(t, 0.3, 0.6, 0.9)
	}
	for i := 0; i < ns; i++ {
		node := used[pick(t, len(used))]
		for _, d := range dofs {
			if d.Node == node && chance(t, p) {
				fix(d)
			}
		}
	}
	stabilise(s, o.maxCond, fix)
}

func stabilise(s *Spec, maxCond float64, fix func(dofKey)) {
	if maxCond == 0 {
		maxCond = 1e7
	}
	lref := s.length(&s.Elems[0])
	for iter := 0; ; iter++ {
		y, err := newSystem(s)
		if err != nil {
			panic("generator: " + err.Error())
		}
		cond, weak := y.condition()
		if cond <= maxCond {
			if cond, weak = y.rawWeakness(); cond <= 0.1*maxRawCond {
				break
			}
		}
		best, bestV := -1, 0.0
		for i, v := range weak {
			k := y.dofs[i]
			if s.isFixed(k) || s.linked(k) {
				continue
			}
			v = math.Abs(v)
			if k.Dof == "Phiy" {
				v *= lref
			}
			if v > bestV*(1+1e-6) {
				best, bestV = i, v
			}
		}
		if best == -1 {
			if len(s.Links) == 0 {
				panic("generator: can't stabilise")
			}
			s.Links = s.Links[:len(s.Links)-1]
			continue
		}
		fix(y.dofs[best])
	}
	y, _ := newSystem(s)
	if len(y.freeColumns()) > 0 {
		return
	}
	// Everything is constrained; release something that keeps the structure stable.
	for i := range s.Dirichlet {
		c := s.clone()
		c.Dirichlet = append(c.Dirichlet[:i:i], c.Dirichlet[i+1:]...)
		yc, _ := newSystem(c)
		if cond, _ := yc.condition(); cond <= maxCond && len(c.Dirichlet)+len(c.Links) > 0 {
			*s = *c
			return
		}
	}
	// Only elements without any stiffness. Take their hinges away, and try again.
	for i := range s.Elems {
		if len(s.Elems[i].Hinges) > 0 {
			for k := range s.Elems {
				s.Elems[k].Hinges = nil
			}
			stabilise(s, maxCond, fix)
			return
		}
	}
}

// forceScale returns a typical force that causes moderate deformations.
func (s *Spec) forceScale() float64 {
	f := math.Inf(1)
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.length(e)
		v := 1e-3 * s.ea(e)
		if e.Kind == "frame2d" {
			v = 1e-2 * s.ei(e) / (l * l)
		}
		f = math.Min(f, v)
	}
	return f
}

// genElementLoad draws a load the given element supports.
func genElementLoad(t *rapid.T, kind string, l, f float64) Load {
	type kt struct{ k, t string }
	opts := []kt{{"Ux", "dirac"}, {"Ux", "constant"}, {"Ux", "linear"}}
	if kind == "frame2d" {
		opts = []kt{{"Uz", "dirac"}, {"Uz", "constant"}, {"Uz", "linear"}, {"Phiy", "dirac"},
			{"Ux", "dirac"}, {"Ux", "constant"}, {"Ux", "linear"}}
	}
	c := opts[pick(t, len(opts))]
	ld := Load{Kind: c.k, Type: c.t}
	switch c.t {
	case "dirac":
		ld.V0 = f * signed(t)
		if c.k == "Phiy" {
			ld.V0 *= l
		}
		switch {
		case chance(t, 0.08):
			ld.Pos = l
		case chance(t, 0.08):
			ld.Pos = 0
		case chance(t, 0.05):
			ld.Pos = l * oneOf(t, 0.5, 1e-3, 1e-5, 1e-6, 1-1e-3, 1-1e-5, 1-1e-6)
		default:
			ld.Pos = l * (0.02 + 0.96*frac(t))
		}
	case "constant":
		ld.V0 = f / l * signed(t)
	case "linear":
		ld.V0 = f / l * signed(t)
		ld.V1 = f / l * signed(t)
		if chance(t, 0.2) {
			ld.V0 = 0
		} else if chance(t, 0.2) {
			ld.V1 = 0
		} else if chance(t, 0.1) {
			ld.V1 = ld.V0
		} else if chance(t, 0.1) {
			ld.V1 = -ld.V0
		} else if chance(t, 0.05) { // nearly constant or nearly antisymmetric
			ld.V1 = oneOf(t, 1.0, -1.0) * ld.V0 * (1 + oneOf(t, 1e-2, 1e-3, -1e-4, 1e-5, 1e-6))
		} else if chance(t, 0.05) { // nearly triangular
			ld.V0, ld.V1 = ld.V1, ld.V1*oneOf(t, 1e-2, -1e-3, 1e-4, -1e-5, 1e-6)
			if chance(t, 0.5) {
				ld.V0, ld.V1 = ld.V1, ld.V0
			}
		}
	}
	if chance(t, 0.01) {
		ld.V0, ld.V1 = 0, 0
	}
	return ld
}

func genLoads(t *rapid.T, s *Spec, o *genOpts) {
	if o.noLoads {
		return
	}
	f := s.forceScale()
	if !o.noElLoads {
		p := oneOf(t, 0.5, 0.25, 0.9)
		for i := range s.Elems {
			e := &s.Elems[i]
			if !chance(t, p) {
				continue
			}
			n := 1 + pick(t, 3)
			if chance(t, 0.04) {
				n += 3 + pick(t, 8)
				if chance(t, 0.1) {
					n += 10 + pick(t, 40)
				}
			}
			for k := 0; k < n; k++ {
				e.Loads = append(e.Loads, genElementLoad(t, e.Kind, s.length(e), f))
			}
			if first, last := &e.Loads[0], &e.Loads[len(e.Loads)-1]; first != last {
				switch {
				case chance(t, 0.15):
					last.Pos = first.Pos // same position or irrelevant
				case last.Type == "dirac" && first.Type == "dirac" && chance(t, 0.1):
					last.Pos = math.Abs(first.Pos - s.length(e)*oneOf(t, 1e-2, 1e-3, 1e-5, 3e-6, 1e-6))
				case chance(t, 0.05): // cancel each other
					*last = *first
					last.V0, last.V1 = -last.V0, -last.V1
				}
			}
		}
	}
	lref := s.length(&s.Elems[0])
	for _, d := range s.dofs() {
		if !chance(t, 0.25) {
			continue
		}
		v := f * signed(t)
		if d.Dof == "Phiy" {
			v *= lref
		}
		s.Neumann = append(s.Neumann, BC{d.Node, d.Dof, v})
		if chance(t, 0.1) {
			s.Neumann = append(s.Neumann, BC{d.Node, d.Dof, 0.5 * v})
		}
	}
}

// genSpec draws a stable, loaded structure.
func genSpec(t *rapid.T, o genOpts) *Spec {
	fams := o.families
	if fams == nil {
		fams = allFamilies
	}
	fam := oneOf(t, fams...)
	s := genGeometry(t, fam, &o)
	genSupports(t, s, &o)
	genLoads(t, s, &o)
	if chance(t, 0.1) {
		s.amplify(logBetween(t, 1e-9, 1e6))
	}
	return s
}

// amplify multiplies everything that acts on a structure.
func (s *Spec) amplify(f float64) {
	for i := range s.Dirichlet {
		s.Dirichlet[i].V *= f
	}
	for i := range s.Neumann {
		s.Neumann[i].V *= f
	}
	for i := range s.Elems {
		for k := range s.Elems[i].Loads {
			s.Elems[i].Loads[k].V0 *= f
			s.Elems[i].Loads[k].V1 *= f
		}
	}
}

// classify labels a structure.
func classify(c *Ctx, s *Spec) {
	kinds := map[string]bool{}
	hinges, diracs, eloads := 0, 0, 0
	for _, e := range s.Elems {
		kinds[e.Kind] = true
		hinges += len(e.Hinges)
		eloads += len(e.Loads)
		for _, l := range e.Loads {
			if l.Type == "dirac" {
				diracs++
			}
		}
	}
	for k := range kinds {
		c.Label("has "+k, true)
	}
	c.Label("mixed kinds", len(kinds) > 1)
	c.Label("hinges", hinges > 0)
	c.Label("element loads", eloads > 0)
	c.Label("concentrated loads", diracs > 0)
	c.Label("inclined supports", len(s.Links) > 0)
	c.Label("several inclined supports", len(s.Links) > 1)
	nz, all := false, true
	for _, d := range s.Dirichlet {
		if d.V != 0 {
			nz = true
		} else {
			all = false
		}
	}
	c.Label("non-zero Dirichlet", nz)
	c.Label("all Dirichlet non-zero", nz && all)
	c.Label("nodal loads", len(s.Neumann) > 0)
	c.Label("elements>=5", len(s.Elems) >= 5)
	c.Label("single element", len(s.Elems) == 1)
}

func (s *Spec) loaded() bool {
	if len(s.Neumann) > 0 {
		return true
	}
	for _, d := range s.Dirichlet {
		if d.V != 0 {
			return true
		}
	}
	for _, e := range s.Elems {
		if len(e.Loads) > 0 {
			return true
		}
	}
	return false
}
