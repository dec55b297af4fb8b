package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lubgr/deflect/deflect"
	"pgregory.net/rapid"
)

func init() {
	register("C06",
		sub("superposition", "structure with two load cases and a factor; non-trivial: both cases loaded", 24000, 400000, genTwoCases, checkSuperposition))
	register("C07",
		sub("motion", "structure and a translation, axis permutation, mirroring or rotation; non-trivial: loaded", 30000, 500000, genMotion, checkMotion))
	register("C08",
		sub("description", "structure and a renamed, reordered, partly reversed twin; non-trivial: loaded", 30000, 500000, genTwin, checkTwin))
	register("C09",
		sub("split", "structure and a refined twin; non-trivial: some member split and loaded", 24000, 400000, genRefined, checkRefined))
	register("C10",
		sub("released", "structure with hinges; non-trivial: some hinge", 16000, 300000, genHinged, checkReleased),
		sub("neighbour", "release on either of two collinear members; non-trivial: always", 12000, 200000, genNeighbour, checkNeighbour),
		sub("subsets", "all hinge subsets of a random element; non-trivial: always", 4000, 40000, genSubsets, checkSubsets))
	register("C22",
		sub("clapeyron", "structure; non-trivial: loaded", 20000, 300000, func(t *rapid.T) *Spec { return genSpec(t, genOpts{}) }, checkClapeyron),
		sub("betti", "structure with two load cases; non-trivial: both loaded", 16000, 300000, genTwoCases, checkBetti))
	register("C25",
		sub("units", "structure and factors; non-trivial: loaded", 24000, 400000, genUnits, checkUnits))
}

// TwoCases are two load cases on the same structure.
type TwoCases struct {
	A, B  *Spec
	Alpha float64
}

func genTwoCases(t *rapid.T) *TwoCases {
	a := genSpec(t, genOpts{})
	b := a.clone()
	b.Neumann = nil
	for i := range b.Elems {
		b.Elems[i].Loads = nil
	}
	mode := pick(t, 3)
	lref := b.length(&b.Elems[0])
	for i := range b.Dirichlet {
		d := &b.Dirichlet[i]
		d.V = 0
		if mode == 2 || (mode == 1 && chance(t, 0.4)) {
			d.V = 0.01 * signed(t)
			if d.Dof != "Phiy" {
				d.V *= lref
			}
		}
	}
	genLoads(t, b, &genOpts{})
	alpha := oneOf(t, 1, -1, 0, 2.5, -0.3, math.NaN(), math.NaN())
	if math.IsNaN(alpha) {
		alpha = logBetween(t, 1e-6, 1e6) * oneOf(t, 1.0, -1)
	}
	if chance(t, 0.15) { // the whole thing is linear, at any magnitude
		f := logBetween(t, 1e-30, 1e15)
		a.scaleCase(f)
		b.scaleCase(f)
	}
	return &TwoCases{a, b, alpha}
}

// scaleCase multiplies all loads and prescribed values.
func (s *Spec) scaleCase(f float64) {
	for i := range s.Dirichlet {
		s.Dirichlet[i].V *= f
	}
	for i := range s.Neumann {
		s.Neumann[i].V *= f
	}
	for i := range s.Elems {
		for k := range s.Elems[i].Loads {
			s.Elems[i].Loads[k].V0 *= f
			s.Elems[i].Loads[k].V1 *= f
		}
	}
}

// combine returns alpha·A + B.
func (tc *TwoCases) combine() *Spec {
	o := tc.B.clone()
	for i := range o.Dirichlet {
		o.Dirichlet[i].V += tc.Alpha * tc.A.Dirichlet[i].V
	}
	for _, n := range tc.A.Neumann {
		o.Neumann = append(o.Neumann, BC{n.Node, n.Dof, tc.Alpha * n.V})
	}
	for i := range o.Elems {
		for _, l := range tc.A.Elems[i].Loads {
			l.V0 *= tc.Alpha
			l.V1 *= tc.Alpha
			o.Elems[i].Loads = append(o.Elems[i].Loads, l)
		}
	}
	return o
}

func checkSuperposition(c *Ctx, tc *TwoCases) error {
	sp := tc.combine()
	classify(c, sp)
	c.NonTrivial(tc.A.loaded() && tc.B.loaded())
	c.Label("zero factor", tc.Alpha == 0)
	a, err := solveOutcome(tc.A)
	if err != nil {
		return err
	}
	b, err := solveOutcome(tc.B)
	if err != nil {
		return err
	}
	s, err := solveOutcome(sp)
	if err != nil {
		return err
	}
	k := tc.Alpha
	tol := func(d string) float64 {
		return math.Abs(k)*a.ref.scales.tol(d) + b.ref.scales.tol(d) + s.ref.scales.tol(d)
	}
	tolR := func(d string) float64 {
		return math.Abs(k)*a.ref.scales.tolR(d) + b.ref.scales.tolR(d) + s.ref.scales.tolR(d)
	}
	U, R := map[dofKey]float64{}, map[dofKey]float64{}
	for d := range a.U {
		U[d] = k*a.U[d] + b.U[d]
		R[d] = k*a.R[d] + b.R[d]
	}
	if err := compareNodal(c, s, U, R, tol, tolR); err != nil {
		return err
	}
	for i := range sp.Elems {
		e := &sp.Elems[i]
		g := s.ref.byID[e.ID]
		xs := g.breakpoints()
		if !wideEnough(xs, g.L) {
			continue
		}
		for _, fct := range kindFcts(e.Kind) {
			var f [3]*field
			for j, o := range []*outcome{a, b, s} {
				if f[j], err = getField(o.r, e.ID, fct, g.L); err != nil {
					return err
				}
			}
			for _, p := range samplePoints(xs) {
				want := k*f[0].at(p.x, p.side) + f[1].at(p.x, p.side)
				if err := near(c, fmt.Sprintf("%v on %q at %v", fct, e.ID, p.x), f[2].at(p.x, p.side), want, tol(fct)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// Motion maps a structure in space.
type Motion struct {
	S     *Spec
	Kind  string // perm, rotate, rotate3
	Perm  signedPerm
	Theta float64
	M     [3][3]float64 `json:",omitempty"`
	Shift [3]float64
}

func genMotion(t *rapid.T) *Motion {
	m := &Motion{Kind: oneOf(t, "perm", "rotate", "perm", "rotate", "rotate3")}
	o := genOpts{}
	fam := ""
	switch m.Kind {
	case "perm":
		fam = oneOf(t, allFamilies...)
	case "rotate":
		fam = oneOf(t, allFamilies...)
		o.noLinks = fam == "truss3d" || fam == "mix3d"
	case "rotate3":
		fam = "truss3d"
		o.noLinks = true
	}
	o.families = []string{fam}
	m.S = genSpec(t, o)
	planar := fam != "truss3d"
	switch m.Kind {
	case "perm":
		if planar {
			m.Perm.P = [3]int{0, 1, 2}
			if chance(t, 0.5) {
				m.Perm.P = [3]int{2, 1, 0}
			}
		} else {
			ps := [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}
			m.Perm.P = ps[pick(t, 6)]
		}
		for i := range m.Perm.S {
			m.Perm.S[i] = oneOf(t, 1.0, -1)
		}
	case "rotate":
		m.Theta = genAngle(t)
		// A non-zero value is only possible along with the other direction
		for i := range m.S.Dirichlet {
			d := &m.S.Dirichlet[i]
			if d.Dof == "Ux" && !m.S.isFixed(dofKey{d.Node, "Uz"}) || d.Dof == "Uz" && !m.S.isFixed(dofKey{d.Node, "Ux"}) {
				d.V = 0
			}
		}
	case "rotate3":
		// Supports at either all or no direction of a node
		for _, k := range m.S.dofs() {
			for _, d := range m.S.Dirichlet {
				if d.Node == k.Node && !m.S.isFixed(k) {
					m.S.Dirichlet = append(m.S.Dirichlet, BC{k.Node, k.Dof, 0})
					break
				}
			}
		}
		a, b, c := genAngle(t), genAngle(t), genAngle(t)
		m.M = mul3(rotAxis(0, a), mul3(rotAxis(1, b), rotAxis(2, c)))
	}
	if chance(t, 0.6) {
		size := m.S.length(&m.S.Elems[0])
		for i := range m.Shift {
			m.Shift[i] = size * oneOf(t, 0.0, 1, 10, 100) * between(t, -1, 1)
		}
	}
	return m
}

func rotAxis(axis int, a float64) (m [3][3]float64) {
	i, j := (axis+1)%3, (axis+2)%3
	m[axis][axis] = 1
	m[i][i], m[j][j] = math.Cos(a), math.Cos(a)
	m[i][j], m[j][i] = -math.Sin(a), math.Sin(a)
	return m
}

func mul3(a, b [3][3]float64) (m [3][3]float64) {
	for i := range m {
		for j := range m {
			for k := range m {
				m[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return m
}

func checkMotion(c *Ctx, m *Motion) error {
	if y, err := newSystem(m.S); err != nil || len(y.freeColumns()) == 0 {
		return skipf("everything fixed")
	}
	classify(c, m.S)
	c.NonTrivial(m.S.loaded())
	c.Label("motion "+m.Kind, true)
	a, err := solveOutcome(m.S)
	if err != nil {
		return err
	}
	// linear maps a nodal triple of values
	linear := func(get func(d string) (float64, bool)) map[string]float64 { return nil }
	det := 1.0
	var s *Spec
	switch m.Kind {
	case "perm":
		s = m.Perm.apply(m.S)
		det = m.Perm.detXZ()
		linear = func(get func(d string) (float64, bool)) map[string]float64 {
			out := map[string]float64{}
			for _, d := range []string{"Ux", "Uy", "Uz", "Phiy"} {
				if v, ok := get(d); ok {
					n, sg := m.Perm.dof(d)
					out[n] = sg * v
				}
			}
			return out
		}
		if m.Perm.P[1] != 1 {
			det = 1
		}
	case "rotate":
		s = rotateXZ(m.S, m.Theta)
		cs, sn := math.Cos(m.Theta), math.Sin(m.Theta)
		linear = func(get func(d string) (float64, bool)) map[string]float64 {
			x, _ := get("Ux")
			z, _ := get("Uz")
			out := map[string]float64{"Ux": cs*x - sn*z, "Uz": sn*x + cs*z}
			out["Phiy"], _ = get("Phiy")
			out["Uy"], _ = get("Uy")
			return out
		}
	case "rotate3":
		apply := func(v [3]float64) (o [3]float64) {
			for i := range o {
				for j := range v {
					o[i] += m.M[i][j] * v[j]
				}
			}
			return o
		}
		s = m.S.clone()
		for i := range s.Nodes {
			n := &s.Nodes[i]
			v := apply([3]float64{n.X, n.Y, n.Z})
			n.X, n.Y, n.Z = v[0], v[1], v[2]
		}
		conv := func(in []BC) (out []BC) {
			for _, b := range in {
				var v [3]float64
				v[axisOf[b.Dof]] = b.V
				v = apply(v)
				for i := range v {
					out = append(out, BC{b.Node, axisDof[i], v[i]})
				}
			}
			return out
		}
		s.Neumann = conv(m.S.Neumann)
		sum := map[dofKey]float64{}
		for _, b := range conv(m.S.Dirichlet) {
			sum[dofKey{b.Node, b.Dof}] += b.V
		}
		for i := range s.Dirichlet {
			d := &s.Dirichlet[i]
			d.V = sum[dofKey{d.Node, d.Dof}]
		}
		linear = func(get func(d string) (float64, bool)) map[string]float64 {
			var v [3]float64
			for i := range v {
				v[i], _ = get(axisDof[i])
			}
			v = apply(v)
			return map[string]float64{"Ux": v[0], "Uy": v[1], "Uz": v[2]}
		}
	}
	for i := range s.Nodes {
		s.Nodes[i].X += m.Shift[0]
		s.Nodes[i].Y += m.Shift[1]
		s.Nodes[i].Z += m.Shift[2]
	}
	b, err := solveOutcome(s)
	if err != nil {
		return err
	}
	U, R := map[dofKey]float64{}, map[dofKey]float64{}
	for _, n := range s.Nodes {
		for d, v := range linear(func(d string) (float64, bool) { v, ok := a.U[dofKey{n.ID, d}]; return v, ok }) {
			U[dofKey{n.ID, d}] = v
		}
		for d, v := range linear(func(d string) (float64, bool) { v, ok := a.R[dofKey{n.ID, d}]; return v, ok }) {
			R[dofKey{n.ID, d}] = v
		}
	}
	tol, tolR := sumTol(a, b)
	if err := compareNodal(c, b, U, R, tol, tolR); err != nil {
		return err
	}
	return compareSameFields(c, a, b, func(e *Elem, fct string) float64 { return fieldSign(fct, det) }, 1)
}

// Twin is the same structure, described differently.
type Twin struct {
	A, B     *Spec
	Reversed map[string]bool   // by new element ID
	Nodes    map[string]string // old to new
	Elems    map[string]string
	Doc      bool // the second one is given as a document
}

func permute[T any](t *rapid.T, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := i - pick(t, i+1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

func genTwin(t *rapid.T) *Twin {
	a := genSpec(t, genOpts{oddIDs: true})
	b := a.clone()
	tw := &Twin{a, b, map[string]bool{}, map[string]string{}, map[string]string{}, chance(t, 0.3)}
	// Names
	if chance(t, 0.6) {
		names := append([]string{}, oddNodeIDs...)
		permute(t, names)
		for i := range b.Nodes {
			tw.Nodes[b.Nodes[i].ID] = names[i%len(names)]
		}
	}
	newNode := func(id *string) {
		if n, ok := tw.Nodes[*id]; ok {
			*id = n
		} else {
			tw.Nodes[*id] = *id
		}
	}
	for i := range b.Nodes {
		newNode(&b.Nodes[i].ID)
	}
	rename := chance(t, 0.6)
	for i := range b.Elems {
		e := &b.Elems[i]
		old := e.ID
		newNode(&e.N0)
		newNode(&e.N1)
		if rename {
			e.ID = oneOf(t, "z", "A", "0", "Ø", "Uz") + strings.Repeat("x", i)
		}
		tw.Elems[old] = e.ID
		if chance(t, 0.4) {
			reverseElem(b, e)
			tw.Reversed[e.ID] = true
		}
		permute(t, e.Loads)
		permute(t, e.Hinges)
	}
	if rename && chance(t, 0.4) {
		renamed := misleadingNames(t, b)
		for old, id := range tw.Elems {
			if n, ok := renamed[id]; ok {
				tw.Elems[old] = n
			}
		}
		reversed := map[string]bool{}
		for id := range tw.Reversed {
			if n, ok := renamed[id]; ok {
				id = n
			}
			reversed[id] = true
		}
		tw.Reversed = reversed
	}
	for i := range b.Dirichlet {
		newNode(&b.Dirichlet[i].Node)
	}
	for i := range b.Neumann {
		newNode(&b.Neumann[i].Node)
	}
	for i := range b.Links {
		newNode(&b.Links[i].Node)
	}
	if rename {
		for i := range b.Mats {
			old := b.Mats[i].ID
			b.Mats[i].ID = fmt.Sprintf("%d", 9-i)
			for k := range b.Elems {
				if a.Elems[k].Mat == old {
					b.Elems[k].Mat = b.Mats[i].ID
				}
			}
		}
	}
	permute(t, b.Nodes)
	permute(t, b.Elems)
	permute(t, b.Mats)
	permute(t, b.CSs)
	permute(t, b.Dirichlet)
	permute(t, b.Neumann)
	// Supports at different nodes commute, those at the same node don't
	if len(b.Links) > 1 && chance(t, 0.5) {
		ls := append([]Link{}, b.Links...)
		permute(t, ls)
		next := map[string]int{}
		for i := range ls {
			for k := next[ls[i].Node]; k < len(b.Links); k++ {
				if b.Links[k].Node == ls[i].Node {
					next[ls[i].Node] = k + 1
					ls[i] = b.Links[k]
					break
				}
			}
		}
		b.Links = ls
	}
	return tw
}

func checkTwin(c *Ctx, tw *Twin) error {
	classify(c, tw.A)
	c.NonTrivial(tw.A.loaded())
	c.Label("reversed elements", len(tw.Reversed) > 0)
	a, err := solveOutcome(tw.A)
	if err != nil {
		return err
	}
	var b *outcome
	c.Label("as a document", tw.Doc)
	if tw.Doc {
		ref, err := solveRef(tw.B)
		if err != nil {
			return skipf("no reference solution")
		}
		p, err := deflect.ProblemFromJSON([]byte(render(nil, tw.B.tree(nil))))
		if err != nil {
			return fmt.Errorf("twin refused: %w", err)
		}
		r, _, err := solveProblem(&p)
		if err != nil {
			return fmt.Errorf("twin refused: %w", err)
		}
		if b, err = outcomeOf(tw.B, r, ref); err != nil {
			return err
		}
	} else if b, err = solveOutcome(tw.B); err != nil {
		return err
	}
	U, R := map[dofKey]float64{}, map[dofKey]float64{}
	for k := range a.U {
		n := dofKey{tw.Nodes[k.Node], k.Dof}
		U[n], R[n] = a.U[k], a.R[k]
	}
	tol, tolR := sumTol(a, b)
	if err := compareNodal(c, b, U, R, tol, tolR); err != nil {
		return err
	}
	for i := range tw.A.Elems {
		e := &tw.A.Elems[i]
		id := tw.Elems[e.ID]
		g := a.ref.byID[e.ID]
		xs := g.breakpoints()
		if !wideEnough(xs, g.L) {
			continue
		}
		for _, fct := range kindFcts(e.Kind) {
			fa, err := getField(a.r, e.ID, fct, g.L)
			if err != nil {
				return err
			}
			fb, err := getField(b.r, id, fct, g.L)
			if err != nil {
				return err
			}
			for _, p := range samplePoints(xs) {
				want, x, side := fa.at(p.x, p.side), p.x, p.side
				if tw.Reversed[id] {
					want, x, side = reversedSign(fct)*want, g.L-x, -side
				}
				if err := near(c, fmt.Sprintf("%v on %q at %v", fct, id, x), fb.at(x, side), want, tol(fct)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// Segment says which part of an original member an element of the refined structure represents.
type Segment struct {
	ID, Of string
	X0, X1 float64
	Share  float64
}

type Refined struct {
	A, B *Spec
	Segs []Segment
}

func genRefined(t *rapid.T) *Refined {
	a := genSpec(t, genOpts{families: []string{"frame2d", "mix2d", "frame2d", "mix3d", "truss2d", "truss3d"}})
	b := a.clone()
	rf := &Refined{A: a, B: b}
	b.Elems = nil
	for i := range a.Elems {
		e := a.clone().Elems[i]
		L := a.length(&e)
		op := pick(t, 3)
		if i == 0 && op == 0 {
			op = 1
		}
		switch {
		case op == 1 && e.Kind == "frame2d":
			n := 2 + pick(t, 3)
			cuts := []float64{0}
			w := 0.0
			for k := 0; k < n; k++ {
				w += 0.3 + frac(t)
				cuts = append(cuts, w)
			}
			for k := range cuts {
				cuts[k] *= L / w
			}
			// Sometimes cut right at a concentrated load
			for _, l := range e.Loads {
				if l.Type == "dirac" && l.Pos > 0.05*L && l.Pos < 0.95*L && n == 2 && chance(t, 0.3) {
					cuts[1] = l.Pos
				}
			}
			cuts[n] = L
			rf.split(t, &e, cuts)
		case op == 2:
			n := 2 + pick(t, 2)
			sum := 0.0
			var shares []float64
			for k := 0; k < n; k++ {
				shares = append(shares, 0.2+frac(t))
				sum += shares[k]
			}
			cs := a.cs(e.CS)
			for k := range shares {
				sh := shares[k] / sum
				cp := e
				cp.ID = fmt.Sprintf("%v|%d", e.ID, k)
				cp.CS = cp.ID
				P := []float64{cs.A() * sh, cs.Iyy() * sh, cs.Izz() * sh, 0, 0}
				b.CSs = append(b.CSs, CS{cp.ID, "constants", P})
				cp.Loads = nil
				for _, l := range e.Loads {
					l.V0 *= sh
					l.V1 *= sh
					cp.Loads = append(cp.Loads, l)
				}
				b.Elems = append(b.Elems, cp)
				rf.Segs = append(rf.Segs, Segment{cp.ID, e.ID, 0, L, sh})
			}
		default:
			b.Elems = append(b.Elems, e)
			rf.Segs = append(rf.Segs, Segment{e.ID, e.ID, 0, L, 1})
		}
	}
	return rf
}

// split cuts a frame into consecutive parts.
func (rf *Refined) split(t *rapid.T, e *Elem, cuts []float64) {
	b := rf.B
	L := cuts[len(cuts)-1]
	p, q := *b.node(e.N0), *b.node(e.N1)
	n := len(cuts) - 1
	names := []string{e.N0}
	for k := 1; k < n; k++ {
		f := cuts[k] / L
		id := fmt.Sprintf("~%v.%d", e.ID, k)
		b.Nodes = append(b.Nodes, Node{id, p.X + f*(q.X-p.X), p.Y + f*(q.Y-p.Y), p.Z + f*(q.Z-p.Z)})
		names = append(names, id)
	}
	names = append(names, e.N1)
	var parts []Elem
	for k := 0; k < n; k++ {
		pe := Elem{ID: fmt.Sprintf("%v.%d", e.ID, k), Kind: e.Kind, N0: names[k], N1: names[k+1], Mat: e.Mat, CS: e.CS}
		x0, x1 := cuts[k], cuts[k+1]
		for _, h := range e.Hinges {
			if h.End == 0 && k == 0 || h.End == 1 && k == n-1 {
				pe.Hinges = append(pe.Hinges, h)
			}
		}
		for _, l := range e.Loads {
			switch l.Type {
			case "constant":
				pe.Loads = append(pe.Loads, l)
			case "linear":
				a, d := l.V0, (l.V1-l.V0)/L
				l.V0, l.V1 = a+d*x0, a+d*x1
				pe.Loads = append(pe.Loads, l)
			}
		}
		parts = append(parts, pe)
		rf.Segs = append(rf.Segs, Segment{pe.ID, e.ID, x0, x1, 1})
	}
	for _, l := range e.Loads {
		if l.Type != "dirac" {
			continue
		}
		for k := 0; k < n; k++ {
			if l.Pos > cuts[k+1] || (l.Pos == cuts[k+1] && k+1 < n && chance(t, 0.5)) {
				continue
			}
			l.Pos -= cuts[k]
			if pl := b.length(&parts[k]); l.Pos > pl {
				l.Pos = pl
			}
			parts[k].Loads = append(parts[k].Loads, l)
			break
		}
	}
	for k := range parts {
		if len(parts) > 1 && chance(t, 0.2) {
			// both directions are fine
			reverseElem(b, &parts[k])
			for i := range rf.Segs {
				if sg := &rf.Segs[i]; sg.ID == parts[k].ID {
					sg.X0, sg.X1 = sg.X1, sg.X0
				}
			}
		}
	}
	b.Elems = append(b.Elems, parts...)
}

func checkRefined(c *Ctx, rf *Refined) error {
	classify(c, rf.A)
	a, err := solveOutcome(rf.A)
	if err != nil {
		return err
	}
	b, err := solveOutcome(rf.B)
	if err != nil {
		return err
	}
	tol, tolR := sumTol(a, b)
	if err := compareNodal(c, b, a.U, a.R, tol, tolR); err != nil {
		return err
	}
	for _, sg := range rf.Segs {
		e := rf.A.elem(sg.Of)
		g, h := a.ref.byID[sg.Of], b.ref.byID[sg.ID]
		if sg.X0 != 0 || sg.X1 != g.L {
			c.Label("split", true)
			c.NonTrivial(rf.A.loaded())
		}
		c.Label("parallel", sg.Share != 1)
		// All points where either may have a jump
		xs := h.breakpoints()
		dir := 1.0
		if sg.X1 < sg.X0 {
			dir = -1
			c.Label("reversed part", true)
		}
		if !wideEnough(xs, h.L) || !wideEnough(g.breakpoints(), g.L) {
			continue
		}
		for _, fct := range kindFcts(e.Kind) {
			fa, err := getField(a.r, sg.Of, fct, g.L)
			if err != nil {
				return err
			}
			fb, err := getField(b.r, sg.ID, fct, h.L)
			if err != nil {
				return err
			}
			k := 1.0
			if fct == "Nx" || fct == "Vz" || fct == "My" {
				k = sg.Share
			}
			if dir < 0 {
				k *= reversedSign(fct)
			}
			for _, p := range samplePoints(xs) {
				// Points right at the parts' ends are left out, as a concentrated load there belongs to either side.
				if len(rf.A.Elems) > 0 && (p.x == 0 || p.x == h.L) && sg.X1-sg.X0 != g.L {
					continue
				}
				x, side := sg.X0+dir*p.x, p.side
				if dir < 0 {
					side = -side
				}
				if err := near(c, fmt.Sprintf("%v on %q at %v", fct, sg.ID, p.x), fb.at(p.x, p.side), k*fa.at(x, side), tol(fct)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func genHinged(t *rapid.T) *Spec {
	s := genGeometry(t, oneOf(t, "frame2d", "mix2d", "frame2d", "mix3d", "truss2d", "truss3d"), &genOpts{})
	o := &genOpts{}
	e := &s.Elems[pick(t, len(s.Elems))]
	if len(e.Hinges) == 0 {
		e.Hinges = genHinges(t, e.Kind)
	}
	genSupports(t, s, o)
	genLoads(t, s, o)
	return s
}

func checkReleased(c *Ctx, s *Spec) error {
	_, r, ref, err := solved(c, s)
	if err != nil {
		return err
	}
	c.nonTrivial = false
	for i := range s.Elems {
		e := &s.Elems[i]
		g := ref.byID[e.ID]
		for _, h := range e.Hinges {
			fct := forceOf[h.Dof]
			f, err := getField(r, e.ID, fct, g.L)
			if err != nil {
				return err
			}
			v, skip := f.start(), false
			if h.End == 1 {
				v = f.end()
			}
			for _, l := range e.Loads {
				// A load right at the hinge is carried by the element
				if l.Type == "dirac" && forceOf[l.Kind] == fct && (l.Pos == 0 && h.End == 0 || h.End == 1 && math.Abs(l.Pos-g.L) < 1e-9*g.L) {
					skip = true
				}
			}
			c.NonTrivial(true)
			if skip {
				continue
			}
			if err := near(c, fmt.Sprintf("%v at hinge of %q", fct, e.ID), v, 0, ref.scales.tol(fct)); err != nil {
				return err
			}
		}
	}
	return nil
}

// Neighbour is a structure with a release that may be put on either of two members.
type Neighbour struct {
	A, B *Spec
	Node string
}

func genNeighbour(t *rapid.T) *Neighbour {
	a := genSpec(t, genOpts{families: []string{"frame2d", "mix2d", "mix3d"}})
	rf := &Refined{A: a, B: a.clone()}
	idx := -1
	for i := range a.Elems {
		if a.Elems[i].Kind == "frame2d" {
			idx = i
			if chance(t, 0.5) {
				break
			}
		}
	}
	if idx < 0 {
		return &Neighbour{a, a, ""}
	}
	e := a.clone().Elems[idx]
	L := a.length(&e)
	if chance(t, 0.5) {
		e.Hinges = nil
	}
	// No load at the new node
	var keep []Load
	cut := L * between(t, 0.2, 0.8)
	for _, l := range e.Loads {
		if l.Type != "dirac" || math.Abs(l.Pos-cut) > 0.01*L {
			keep = append(keep, l)
		}
	}
	e.Loads = keep
	rf.B.Elems = append(rf.B.Elems[:idx:idx], rf.B.Elems[idx+1:]...)
	rf.split(t, &e, []float64{0, cut, L})
	node := fmt.Sprintf("~%v.1", e.ID)
	dof := oneOf(t, "Phiy", "Uz", "Ux")
	x, y := rf.B, rf.B.clone()
	for i, s := range []*Spec{x, y} {
		el := s.elem(fmt.Sprintf("%v.%d", e.ID, i))
		end := 0
		if el.N1 == node {
			end = 1
		}
		el.Hinges = append(el.Hinges, Hinge{end, dof})
	}
	if hx, hy := x.clone(), y.clone(); x.hingesFine() && y.hingesFine() {
		lref := hx.length(&hx.Elems[0])
		stabilise(hx, 0, func(k dofKey) {
			if hx.isFixed(k) || hx.linked(k) {
				return
			}
			v := 0.0
			if chance(t, 0.3) {
				v = 0.01 * signed(t)
				if k.Dof != "Phiy" {
					v *= lref
				}
			}
			hx.Dirichlet = append(hx.Dirichlet, BC{k.Node, k.Dof, v})
		})
		same := true // a support at the new node acts on one of the parts only
		for _, d := range hx.Dirichlet {
			same = same && d.Node != node
		}
		for i := range hx.Elems {
			same = same && len(hx.Elems[i].Hinges) == len(x.Elems[i].Hinges)
		}
		if same {
			hy.Dirichlet = append([]BC(nil), hx.Dirichlet...)
			hy.Links = append([]Link(nil), hx.Links...)
			x, y = hx, hy
		}
	}
	nb := &Neighbour{x, y, node}
	return nb
}

func (s *Spec) hingesFine() bool {
	for i := range s.Elems {
		if !hingesSupported(s.Elems[i].Kind, s.Elems[i].Hinges) {
			return false
		}
	}
	return true
}

// hingesSupported is the model of what element creation accepts.
func hingesSupported(kind string, hs []Hinge) bool {
	var b [6]bool
	for _, h := range hs {
		switch h.Dof {
		case "Ux":
			b[3*h.End] = true
		case "Uz":
			b[3*h.End+1] = true
		case "Phiy":
			b[3*h.End+2] = true
		}
	}
	if b[0] && b[3] {
		return false
	}
	if kind != "frame2d" {
		return true
	}
	switch [4]bool{b[1], b[2], b[4], b[5]} {
	case [4]bool{}, [4]bool{true, false, false, false}, [4]bool{false, true, false, false}, [4]bool{false, false, true, false},
		[4]bool{false, false, false, true}, [4]bool{false, true, true, false}, [4]bool{false, true, false, true}, [4]bool{true, false, false, true}:
		return true
	}
	return false
}

func checkNeighbour(c *Ctx, nb *Neighbour) error {
	if nb.Node == "" {
		return skipf("no frame")
	}
	for _, s := range []*Spec{nb.A, nb.B} {
		for _, e := range s.Elems {
			if !hingesSupported(e.Kind, e.Hinges) {
				return skipf("not supported")
			}
		}
		y, err := newSystem(s)
		if err != nil {
			return err
		}
		if cond, _ := y.condition(); cond > 1e8 {
			return skipf("not clearly stable")
		}
	}
	classify(c, nb.A)
	c.NonTrivial(nb.A.loaded())
	a, err := solveOutcome(nb.A)
	if err != nil {
		return err
	}
	b, err := solveOutcome(nb.B)
	if err != nil {
		return err
	}
	U, R := map[dofKey]float64{}, map[dofKey]float64{}
	for k := range a.U {
		if k.Node != nb.Node {
			U[k] = a.U[k]
		}
		R[k] = a.R[k]
	}
	tol, tolR := sumTol(a, b)
	if err := compareNodal(c, b, U, R, tol, tolR); err != nil {
		return err
	}
	return compareSameFields(c, a, b, func(*Elem, string) float64 { return 1 }, 1)
}

// Subsets is one element whose hinges are enumerated.
type Subsets struct {
	S    *Spec
	Perm []int
}

func genSubsets(t *rapid.T) *Subsets {
	s := genGeometry(t, oneOf(t, "frame2d", "truss2d", "truss3d"), &genOpts{maxNodes: 2, noHinges: true, oddIDs: true})
	s.Elems = s.Elems[:1]
	return &Subsets{S: s}
}

func checkSubsets(c *Ctx, su *Subsets) error {
	e := su.S.Elems[0]
	c.NonTrivial(true)
	c.Label(e.Kind, true)
	all := []Hinge{{0, "Ux"}, {1, "Ux"}}
	if e.Kind == "frame2d" {
		all = append(all, Hinge{0, "Uz"}, Hinge{0, "Phiy"}, Hinge{1, "Uz"}, Hinge{1, "Phiy"})
	}
	for m := 0; m < 1<<len(all); m++ {
		s := su.S.clone()
		for i, h := range all {
			if m&(1<<i) != 0 {
				s.Elems[0].Hinges = append(s.Elems[0].Hinges, h)
			}
		}
		_, err := s.build()
		want := hingesSupported(e.Kind, s.Elems[0].Hinges)
		if want && err != nil {
			return fmt.Errorf("supported hinges %v of a %v refused: %w", s.Elems[0].Hinges, e.Kind, err)
		}
		if !want && err == nil {
			return fmt.Errorf("unsupported hinges %v of a %v accepted", s.Elems[0].Hinges, e.Kind)
		}
	}
	return nil
}

func checkClapeyron(c *Ctx, s *Spec) error {
	classify(c, s)
	c.NonTrivial(s.loaded())
	o, err := solveOutcome(s)
	if err != nil {
		return err
	}
	for i := range s.Elems {
		if g := o.ref.byID[s.Elems[i].ID]; !wideEnough(g.breakpoints(), g.L) {
			return skipf("loads too close to each other")
		}
	}
	w, abs, err := work(o, o)
	if err != nil {
		return err
	}
	e, err := strainEnergy(o)
	if err != nil {
		return err
	}
	if !(e >= 0) {
		return fmt.Errorf("negative strain energy %v", e)
	}
	return near(c, "work", w, e, energyTol(o, o)+1e-9*(abs+e))
}

// energyTol bounds the error of work products.
func energyTol(a, b *outcome) float64 {
	x, y := a.ref.scales, b.ref.scales
	n := 0.0
	for i := range a.s.Elems {
		n += 4 + 2*float64(len(a.s.Elems[i].Loads)+len(b.s.Elems[i].Loads))
	}
	n += float64(len(a.s.Neumann) + len(b.s.Neumann))
	return n * (x.tolF()*y.U + x.F*y.tolU() + x.tolM()*y.Phi + x.M*y.tolPhi() + y.tolF()*x.U + y.F*x.tolU() + y.tolM()*x.Phi + y.M*x.tolPhi())
}

func checkBetti(c *Ctx, tc *TwoCases) error {
	classify(c, tc.A)
	c.NonTrivial(tc.A.loaded() && tc.B.loaded())
	a, err := solveOutcome(tc.A)
	if err != nil {
		return err
	}
	b, err := solveOutcome(tc.B)
	if err != nil {
		return err
	}
	for i := range tc.A.Elems {
		for _, o := range []*outcome{a, b} {
			if g := o.ref.byID[tc.A.Elems[i].ID]; !wideEnough(g.breakpoints(), g.L) {
				return skipf("loads too close to each other")
			}
		}
	}
	ab, x, err := work(a, b)
	if err != nil {
		return err
	}
	ba, y, err := work(b, a)
	if err != nil {
		return err
	}
	return near(c, "reciprocal work", ab, ba, energyTol(a, b)+1e-9*(x+y))
}

// Units are factors for the description of a structure.
type Units struct {
	S          *Spec
	Lambda, Mu float64 // stiffness, loads
	A, F       float64 // length and force unit
}

func genUnits(t *rapid.T) *Units {
	u := &Units{S: genSpec(t, genOpts{}), Lambda: 1, Mu: 1, A: 1, F: 1}
	if chance(t, 0.6) {
		u.Lambda = logBetween(t, 1e-6, 1e6)
	}
	if chance(t, 0.6) {
		u.Mu = logBetween(t, 1e-6, 1e6)
	}
	if chance(t, 0.6) {
		u.A = logBetween(t, 1e-3, 1e3)
		if shortest := u.S.shortest(); chance(t, 0.25) {
			u.A = logBetween(t, 3e-8/shortest, 1e6)
		}
	}
	if chance(t, 0.6) {
		u.F = logBetween(t, 1e-6, 1e6)
	}
	return u
}

// shortest is the length of the shortest element.
func (s *Spec) shortest() float64 {
	out := math.Inf(1)
	for i := range s.Elems {
		out = math.Min(out, s.length(&s.Elems[i]))
	}
	return out
}

func (u *Units) apply() *Spec {
	s := u.S.clone()
	a := u.A
	for i := range s.Nodes {
		s.Nodes[i].X *= a
		s.Nodes[i].Y *= a
		s.Nodes[i].Z *= a
	}
	for i := range s.Mats {
		s.Mats[i].E *= u.Lambda * u.F / (a * a)
		s.Mats[i].Rho *= u.F / (a * a * a)
	}
	for i := range s.CSs {
		cs := &s.CSs[i]
		if cs.Kind == "rectangle" {
			cs.P[0] *= a
			cs.P[1] *= a
		} else {
			cs.P[0] *= a * a
			for k := 1; k <= 3; k++ {
				cs.P[k] *= a * a * a * a
			}
		}
	}
	f := u.F * u.Mu
	for i := range s.Elems {
		for k := range s.Elems[i].Loads {
			l := &s.Elems[i].Loads[k]
			l.Pos *= a
			g := f
			switch {
			case l.Type != "dirac":
				g = f / a
			case l.Kind == "Phiy":
				g = f * a
			}
			l.V0 *= g
			l.V1 *= g
			if L := s.length(&s.Elems[i]); l.Pos > L {
				l.Pos = L
			}
		}
	}
	for i := range s.Neumann {
		n := &s.Neumann[i]
		if n.Dof == "Phiy" {
			n.V *= f * a
		} else {
			n.V *= f
		}
	}
	for i := range s.Dirichlet {
		d := &s.Dirichlet[i]
		d.V *= u.Mu / u.Lambda
		if d.Dof != "Phiy" {
			d.V *= a
		}
	}
	return s
}

// factor is the expected factor of a quantity.
func (u *Units) factor(q string) float64 {
	switch q {
	case "Ux", "Uy", "Uz":
		return u.Mu / u.Lambda * u.A
	case "Phiy":
		return u.Mu / u.Lambda
	case "My":
		return u.Mu * u.F * u.A
	}
	return u.Mu * u.F
}

func checkUnits(c *Ctx, u *Units) error {
	classify(c, u.S)
	c.NonTrivial(u.S.loaded())
	c.Label("length", u.A != 1)
	c.Label("stiffness", u.Lambda != 1)
	c.Label("loads", u.Mu != 1)
	a, err := solveOutcome(u.S)
	if err != nil {
		return err
	}
	b, err := solveOutcome(u.apply())
	if err != nil {
		return err
	}
	U, R := map[dofKey]float64{}, map[dofKey]float64{}
	for k := range a.U {
		U[k] = u.factor(k.Dof) * a.U[k]
		if k.Dof == "Phiy" {
			R[k] = u.factor("My") * a.R[k]
		} else {
			R[k] = u.factor("Nx") * a.R[k]
		}
	}
	tol := func(d string) float64 { return u.factor(d)*a.ref.scales.tol(d) + b.ref.scales.tol(d) }
	tolR := func(d string) float64 {
		if d == "Phiy" {
			return u.factor("My")*a.ref.scales.tolR(d) + b.ref.scales.tolR(d)
		}
		return u.factor("Nx")*a.ref.scales.tolR(d) + b.ref.scales.tolR(d)
	}
	if err := compareNodal(c, b, U, R, tol, tolR); err != nil {
		return err
	}
	return compareSameFields(c, a, b, func(_ *Elem, f string) float64 { return u.factor(f) }, u.A)
}
