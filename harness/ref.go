package main

import (
	"fmt"
	"math"
	"sort"

	"gonum.org/v1/gonum/mat"
)

// This file contains an implementation of first-order Bernoulli beam/bar theory that shares nothing
// with the code under test: a mixed formulation whose unknowns are nodal displacements, reactions and
// each member's start state (u, w, phi, N, V, M), connected through closed-form transfer relations.
// The solution is refined with compensated residuals, so that it is accurate to a few ulps times the
// conditioning of the physical problem.
//
// Conventions: local x = (c, s), local z = (s, -c) in the global x-z plane; phi_local = -phi_global;
// N' = -qx, V' = -qz, M' = V, phi' = M/EI, w' = -phi, u' = N/EA.

type state struct{ u, w, phi, N, V, M float64 }

func (s state) get(f string) float64 {
	switch f {
	case "Ux":
		return s.u
	case "Uz":
		return s.w
	case "Phiy":
		return s.phi
	case "Nx":
		return s.N
	case "Vz":
		return s.V
	case "My":
		return s.M
	}
	panic("unknown function " + f)
}

// geom holds a member's properties.
type geom struct {
	e        *Elem
	L        float64
	ex       [3]float64 // x, y, z
	c, s     float64
	EA, EI   float64
	beam     bool
	released [6]bool // u0 w0 phi0 u1 w1 phi1
	n0, n1   string
}

func (s *Spec) geomOf(e *Elem) geom {
	a, b := s.node(e.N0), s.node(e.N1)
	l := s.length(e)
	g := geom{e: e, L: l, EA: s.ea(e), EI: s.ei(e), beam: e.Kind == "frame2d", n0: e.N0, n1: e.N1}
	g.ex = [3]float64{(b.X - a.X) / l, (b.Y - a.Y) / l, (b.Z - a.Z) / l}
	g.c, g.s = g.ex[0], g.ex[2]
	for _, h := range e.Hinges {
		switch h.Dof {
		case "Ux":
			g.released[3*h.End] = true
		case "Uz":
			g.released[3*h.End+1] = true
		case "Phiy":
			g.released[3*h.End+2] = true
		}
	}
	return g
}

// particular returns the change of state from 0 to x due to loads alone (zero start state). When
// after is true, concentrated loads exactly at x are included.
func (g *geom) particular(x float64, after bool) state {
	var p state
	for _, l := range g.e.Loads {
		switch l.Type {
		case "dirac":
			pos := l.Pos
			if math.Abs(pos-g.L) <= 1e-12*g.L {
				pos = g.L
			}
			if pos > x || (pos == x && !after) {
				continue
			}
			xi := x - pos
			switch l.Kind {
			case "Ux":
				p.N -= l.V0
				p.u -= l.V0 * xi / g.EA
			case "Uz":
				p.V -= l.V0
				p.M -= l.V0 * xi
				p.phi -= l.V0 * xi * xi / (2 * g.EI)
				p.w += l.V0 * xi * xi * xi / (6 * g.EI)
			case "Phiy":
				p.M -= l.V0
				p.phi -= l.V0 * xi / g.EI
				p.w += l.V0 * xi * xi / (2 * g.EI)
			}
		default:
			q0, k := l.V0, 0.0
			if l.Type == "linear" {
				k = (l.V1 - l.V0) / g.L
			}
			x2 := x * x
			x3 := x2 * x
			switch l.Kind {
			case "Ux":
				p.N -= q0*x + k*x2/2
				p.u -= (q0*x2/2 + k*x3/6) / g.EA
			case "Uz":
				p.V -= q0*x + k*x2/2
				p.M -= q0*x2/2 + k*x3/6
				p.phi -= (q0*x3/6 + k*x2*x2/24) / g.EI
				p.w += (q0*x2*x2/24 + k*x3*x2/120) / g.EI
			}
		}
	}
	return p
}

// at evaluates the member's state at x for the given start state.
func (g *geom) at(s0 state, x float64, after bool) state {
	p := g.particular(x, after)
	p.u += s0.u + s0.N*x/g.EA
	p.N += s0.N
	if g.beam {
		p.w += s0.w - s0.phi*x - s0.M*x*x/(2*g.EI) - s0.V*x*x*x/(6*g.EI)
		p.phi += s0.phi + s0.M*x/g.EI + s0.V*x*x/(2*g.EI)
		p.V += s0.V
		p.M += s0.M + s0.V*x
	}
	return p
}

// breakpoints returns 0, all positions of concentrated loads, and L, ascending and unique.
func (g *geom) breakpoints() []float64 {
	xs := []float64{0, g.L}
	for _, l := range g.e.Loads {
		if l.Type == "dirac" && l.Pos > 0 && l.Pos < g.L {
			xs = append(xs, l.Pos)
		}
	}
	sort.Float64s(xs)
	out := xs[:1]
	for _, x := range xs[1:] {
		if x-out[len(out)-1] > 1e-9*g.L {
			out = append(out, x)
		}
	}
	return out
}

// system holds what is common to reference solution and stability analysis.
type system struct {
	spec  *Spec
	dofs  []dofKey
	at    map[dofKey]int
	geoms []geom
	// basis: columns are admissible directions (after links), to: constrained 'to' columns per link.
	basis  *mat.Dense
	fixed  map[int]bool // dof is Dirichlet-prescribed (not by links)
	linkTo []int
}

func newSystem(s *Spec) (*system, error) {
	y := &system{spec: s, dofs: s.dofs(), at: map[dofKey]int{}, fixed: map[int]bool{}}
	for i, d := range y.dofs {
		y.at[d] = i
	}
	for i := range s.Elems {
		y.geoms = append(y.geoms, s.geomOf(&s.Elems[i]))
	}
	n := len(y.dofs)
	y.basis = mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		y.basis.Set(i, i, 1)
	}
	for _, l := range s.Links {
		i, ok1 := y.at[dofKey{l.Node, l.From}]
		j, ok2 := y.at[dofKey{l.Node, l.To}]
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("link refers to an unused degree of freedom")
		}
		y.linkTo = append(y.linkTo, j)
		c, sn := math.Cos(l.Angle), math.Sin(l.Angle)
		for r := 0; r < n; r++ {
			bi, bj := y.basis.At(r, i), y.basis.At(r, j)
			y.basis.Set(r, i, c*bi+sn*bj)
			y.basis.Set(r, j, -sn*bi+c*bj)
		}
	}
	for _, d := range s.Dirichlet {
		i, ok := y.at[dofKey{d.Node, d.Dof}]
		if !ok {
			return nil, fmt.Errorf("Dirichlet BC refers to an unused degree of freedom")
		}
		if y.fixed[i] {
			return nil, fmt.Errorf("duplicate Dirichlet BC")
		}
		y.fixed[i] = true
	}
	return y, nil
}

// coefs returns the rows that map nodal dofs to the member's local end displacement k (0..5 = u0 w0
// phi0 u1 w1 phi1).
type coef struct {
	i int
	v float64
}

func (y *system) endDisp(g *geom, k int) []coef {
	node := g.n0
	if k >= 3 {
		node = g.n1
	}
	get := func(d string, v float64) []coef {
		i, ok := y.at[dofKey{node, d}]
		if !ok {
			panic("reference: missing dof")
		}
		return []coef{{i, v}}
	}
	switch k % 3 {
	case 0:
		out := append(get("Ux", g.ex[0]), get("Uz", g.ex[2])...)
		if g.e.Kind == "truss3d" {
			out = append(out, get("Uy", g.ex[1])...)
		}
		return out
	case 1:
		return append(get("Ux", g.s), get("Uz", -g.c)...)
	}
	return get("Phiy", -1)
}

// stiffness assembles an independent global tangent (for stability and conditioning only).
func (y *system) stiffness() *mat.SymDense {
	n := len(y.dofs)
	K := mat.NewSymDense(n, nil)
	for gi := range y.geoms {
		g := &y.geoms[gi]
		kl := g.localStiffness()
		for a := 0; a < 6; a++ {
			if !g.beam && a%3 != 0 {
				continue
			}
			for b := 0; b < 6; b++ {
				if !g.beam && b%3 != 0 {
					continue
				}
				if kl[a][b] == 0 {
					continue
				}
				for _, p := range y.endDisp(g, a) {
					for _, q := range y.endDisp(g, b) {
						if p.i <= q.i {
							K.SetSym(p.i, q.i, K.At(p.i, q.i)+p.v*q.v*kl[a][b])
						}
					}
				}
			}
		}
	}
	return K
}

// localStiffness returns the member's stiffness in local end displacements with releases eliminated.
func (g *geom) localStiffness() [6][6]float64 {
	var k [6][6]float64
	l := g.L
	set := func(a, b int, v float64) { k[a][b] = v; k[b][a] = v }
	set(0, 0, g.EA/l)
	set(3, 3, g.EA/l)
	set(0, 3, -g.EA/l)
	if g.beam {
		EI := g.EI
		set(1, 1, 12*EI/(l*l*l))
		set(4, 4, 12*EI/(l*l*l))
		set(1, 4, -12*EI/(l*l*l))
		set(1, 2, -6*EI/(l*l))
		set(1, 5, -6*EI/(l*l))
		set(2, 4, 6*EI/(l*l))
		set(4, 5, 6*EI/(l*l))
		set(2, 2, 4*EI/l)
		set(5, 5, 4*EI/l)
		set(2, 5, 2*EI/l)
	}
	for r := 0; r < 6; r++ {
		if !g.released[r] || (!g.beam && r%3 != 0) {
			continue
		}
		piv := k[r][r]
		for a := 0; a < 6; a++ {
			for b := 0; b < 6; b++ {
				if a != r && b != r {
					k[a][b] -= k[a][r] * k[r][b] / piv
				}
			}
		}
		for a := 0; a < 6; a++ {
			k[a][r], k[r][a] = 0, 0
		}
	}
	return k
}

// freeColumns lists basis columns that are neither Dirichlet-fixed nor blocked by a link.
func (y *system) freeColumns() []int {
	blocked := map[int]bool{}
	for j := range y.fixed {
		blocked[j] = true
	}
	for _, j := range y.linkTo {
		blocked[j] = true
	}
	var out []int
	for j := range y.dofs {
		if !blocked[j] {
			out = append(out, j)
		}
	}
	return out
}

// condition returns the extreme eigenvalue ratio of the equilibrated free stiffness and the
// eigenvector (in global dofs) of the smallest one. A zero diagonal is handled as an eigenvalue zero.
func (y *system) condition() (cond float64, weak []float64) {
	free := y.freeColumns()
	n, m := len(y.dofs), len(free)
	if m == 0 {
		return 1, nil
	}
	K := y.stiffness()
	B := mat.NewDense(n, m, nil)
	for c, j := range free {
		for i := 0; i < n; i++ {
			B.Set(i, c, y.basis.At(i, j))
		}
	}
	var kb, kff mat.Dense
	kb.Mul(K, B)
	kff.Mul(B.T(), &kb)
	d := make([]float64, m)
	toGlobal := func(v []float64) []float64 {
		out := make([]float64, n)
		for i := 0; i < n; i++ {
			for c := range free {
				out[i] += B.At(i, c) * v[c]
			}
		}
		return out
	}
	for c := 0; c < m; c++ {
		if kff.At(c, c) <= 0 || y.tinyDiagonal(free[c], kff.At(c, c)) {
			v := make([]float64, m)
			v[c] = 1
			return math.Inf(1), toGlobal(v)
		}
		d[c] = 1 / math.Sqrt(kff.At(c, c))
	}
	S := mat.NewSymDense(m, nil)
	for a := 0; a < m; a++ {
		for b := a; b < m; b++ {
			S.SetSym(a, b, kff.At(a, b)*d[a]*d[b])
		}
	}
	var eig mat.EigenSym
	if !eig.Factorize(S, true) {
		return math.Inf(1), nil
	}
	vals := eig.Values(nil)
	var vecs mat.Dense
	eig.VectorsTo(&vecs)
	v := make([]float64, m)
	for c := 0; c < m; c++ {
		v[c] = vecs.At(c, 0) * d[c]
	}
	if vals[0] <= 1e-15 {
		return math.Inf(1), toGlobal(v)
	}
	return vals[m-1] / vals[0], toGlobal(v)
}

// maxRawCond limits the condition of the stiffness as it is, without equilibration. The equation solver
// in use refuses systems beyond 1e16.
const maxRawCond = 1e14

// rawCondition returns the extreme eigenvalue ratio of the free stiffness.
func (y *system) rawCondition() float64 {
	cond, _ := y.rawWeakness()
	return cond
}

// rawWeakness also returns the displacements that meet the smallest resistance.
func (y *system) rawWeakness() (cond float64, weak []float64) {
	free := y.freeColumns()
	n, m := len(y.dofs), len(free)
	if m == 0 {
		return 1, nil
	}
	B := mat.NewDense(n, m, nil)
	for c, j := range free {
		for i := 0; i < n; i++ {
			B.Set(i, c, y.basis.At(i, j))
		}
	}
	var kb, kff mat.Dense
	kb.Mul(y.stiffness(), B)
	kff.Mul(B.T(), &kb)
	S := mat.NewSymDense(m, nil)
	for a := 0; a < m; a++ {
		for b := a; b < m; b++ {
			S.SetSym(a, b, kff.At(a, b))
		}
	}
	var eig mat.EigenSym
	if !eig.Factorize(S, true) {
		return math.Inf(1), nil
	}
	vals := eig.Values(nil)
	var vecs mat.Dense
	eig.VectorsTo(&vecs)
	weak = make([]float64, n)
	for i := range weak {
		for c := 0; c < m; c++ {
			weak[i] += B.At(i, c) * vecs.At(c, 0)
		}
	}
	if vals[0] <= 0 {
		return math.Inf(1), weak
	}
	return vals[m-1] / vals[0], weak
}

// linkLoss returns the smallest part of a node's stiffness that is left in the free direction of an inclined
// support. It is a difference of larger numbers, hence amplifies rounding errors.
func (y *system) linkLoss() float64 {
	loss := 1.0
	if len(y.spec.Links) == 0 {
		return loss
	}
	K := y.stiffness()
	var kb, kff mat.Dense
	kb.Mul(K, y.basis)
	kff.Mul(y.basis.T(), &kb)
	for _, l := range y.spec.Links {
		i, j := y.at[dofKey{l.Node, l.From}], y.at[dofKey{l.Node, l.To}]
		if q := kff.At(i, i) / math.Max(K.At(i, i), K.At(j, j)); q < loss {
			loss = q
		}
	}
	return math.Max(loss, 1e-15)
}

// tinyDiagonal reports if a diagonal entry is only rounding noise of the members that contribute.
func (y *system) tinyDiagonal(j int, v float64) bool { return v <= 1e-12*y.diagonalSum(j) }

// vagueDiagonal reports if a diagonal entry is neither clearly rounding noise nor clearly more than that.
func (y *system) vagueDiagonal() bool {
	K := y.stiffness()
	n := len(y.dofs)
	for _, j := range y.freeColumns() {
		v := 0.0
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				v += y.basis.At(a, j) * K.At(a, b) * y.basis.At(b, j)
			}
		}
		if sum := y.diagonalSum(j); v > 1e-14*sum && v < 1e-10*sum {
			return true
		}
	}
	return false
}

func (y *system) diagonalSum(j int) float64 {
	sum := 0.0
	for gi := range y.geoms {
		g := &y.geoms[gi]
		for a := 0; a < 6; a++ {
			if !g.beam && a%3 != 0 {
				continue
			}
			for _, p := range y.endDisp(g, a) {
				if p.i == j || y.basis.At(p.i, j) != 0 {
					if a%3 == 0 {
						sum += g.EA / g.L
					} else if a%3 == 1 {
						sum += 12 * g.EI / (g.L * g.L * g.L)
					} else {
						sum += 4 * g.EI / g.L
					}
				}
			}
		}
	}
	return sum
}

// Ref is a reference solution.
type Ref struct {
	sys    *system
	cond   float64
	U      map[dofKey]float64
	R      map[dofKey]float64
	starts map[string]state
	byID   map[string]*geom
	scales scales
}

// scales are magnitudes for judging deviations.
type scales struct {
	U    float64 // translations
	Phi  float64 // rotations
	F    float64 // forces
	M    float64 // moments
	Lmin float64
	Lmax float64
	kF   float64 // largest translational stiffness
	cond float64
	// noise is a displacement due to rounding of loads that go directly into supports
	noise float64
}

// solveRef computes the reference solution. An error means that the problem is not (clearly) stable.
func solveRef(s *Spec) (*Ref, error) {
	y, err := newSystem(s)
	if err != nil {
		return nil, err
	}
	if len(y.freeColumns()) == 0 {
		return nil, fmt.Errorf("no free degree of freedom")
	}
	cond, _ := y.condition()
	if math.IsInf(cond, 1) || cond > 1e12 {
		return nil, fmt.Errorf("unstable or too ill-conditioned: %v", cond)
	} else if raw := y.rawCondition(); raw > maxRawCond {
		return nil, fmt.Errorf("too different stiffness: %v", raw)
	}
	nd := len(y.dofs)
	type support struct {
		col []coef
		val float64
	}
	var supports []support
	for _, d := range s.Dirichlet {
		i := y.at[dofKey{d.Node, d.Dof}]
		supports = append(supports, support{[]coef{{i, 1}}, d.V})
	}
	for _, j := range y.linkTo {
		var col []coef
		for i := 0; i < nd; i++ {
			if v := y.basis.At(i, j); v != 0 {
				col = append(col, coef{i, v})
			}
		}
		supports = append(supports, support{col, 0})
	}
	ns := len(supports)
	offset := make([]int, len(y.geoms))
	n := nd + ns
	for i := range y.geoms {
		offset[i] = n
		if y.geoms[i].beam {
			n += 6
		} else {
			n += 2
		}
	}
	A := mat.NewDense(n, n, nil)
	b := make([]float64, n)
	row := 0
	add := func(r, c int, v float64) { A.Set(r, c, A.At(r, c)+v) }
	// Rows 0..nd-1 are nodal equilibrium
	for _, f := range s.Neumann {
		i, ok := y.at[dofKey{f.Node, f.Dof}]
		if !ok {
			return nil, fmt.Errorf("nodal load at unused degree of freedom")
		}
		b[i] -= f.V
	}
	for k, sp := range supports {
		for _, c := range sp.col {
			add(c.i, nd+k, c.v)
		}
	}
	row = nd
	for _, sp := range supports {
		for _, c := range sp.col {
			add(row, c.i, c.v)
		}
		b[row] = sp.val
		row++
	}
	for gi := range y.geoms {
		g := &y.geoms[gi]
		o := offset[gi]
		// column positions of start state
		col := map[string]int{"u": o, "N": o + 1, "w": o + 2, "phi": o + 3, "V": o + 4, "M": o + 5}
		pe := g.particular(g.L, true)
		type lin struct {
			c map[string]float64
			k float64
		}
		L := g.L
		end := [6]lin{} // displacement quantities at start/end: u0 w0 phi0 u1 w1 phi1
		frc := [6]lin{} // conjugate internal force: N0 V0 M0 N1 V1 M1
		end[0] = lin{map[string]float64{"u": 1}, 0}
		frc[0] = lin{map[string]float64{"N": 1}, 0}
		end[3] = lin{map[string]float64{"u": 1, "N": L / g.EA}, pe.u}
		frc[3] = lin{map[string]float64{"N": 1}, pe.N}
		if g.beam {
			EI := g.EI
			end[1] = lin{map[string]float64{"w": 1}, 0}
			end[2] = lin{map[string]float64{"phi": 1}, 0}
			frc[1] = lin{map[string]float64{"V": 1}, 0}
			frc[2] = lin{map[string]float64{"M": 1}, 0}
			end[4] = lin{map[string]float64{"w": 1, "phi": -L, "M": -L * L / (2 * EI), "V": -L * L * L / (6 * EI)}, pe.w}
			end[5] = lin{map[string]float64{"phi": 1, "M": L / EI, "V": L * L / (2 * EI)}, pe.phi}
			frc[4] = lin{map[string]float64{"V": 1}, pe.V}
			frc[5] = lin{map[string]float64{"M": 1, "V": L}, pe.M}
		}
		for k := 0; k < 6; k++ {
			if !g.beam && k%3 != 0 {
				continue
			}
			if g.released[k] {
				for name, v := range frc[k].c {
					add(row, col[name], v)
				}
				b[row] = -frc[k].k
			} else {
				for _, c := range y.endDisp(g, k) {
					add(row, c.i, c.v)
				}
				for name, v := range end[k].c {
					add(row, col[name], -v)
				}
				b[row] = end[k].k
			}
			row++
			// Contribution to nodal equilibrium: the member pulls the start node with +(N,V,M) and the
			// end node with -(N,V,M).
			sign := 1.0
			if k >= 3 {
				sign = -1
			}
			for _, c := range y.endDisp(g, k) {
				for name, v := range frc[k].c {
					add(c.i, col[name], sign*c.v*v)
				}
				b[c.i] -= sign * c.v * frc[k].k
			}
		}
	}
	if row != n {
		panic("reference: system not square")
	}
	x, err := refinedSolve(A, b)
	if err != nil {
		return nil, err
	}
	r := &Ref{sys: y, cond: cond, U: map[dofKey]float64{}, R: map[dofKey]float64{},
		starts: map[string]state{}, byID: map[string]*geom{}}
	for i, d := range y.dofs {
		r.U[d] = x[i]
		r.R[d] = 0
	}
	for k, sp := range supports {
		for _, c := range sp.col {
			r.R[y.dofs[c.i]] += c.v * x[nd+k]
		}
	}
	for gi := range y.geoms {
		g := &y.geoms[gi]
		o := offset[gi]
		st := state{u: x[o], N: x[o+1]}
		if g.beam {
			st.w, st.phi, st.V, st.M = x[o+2], x[o+3], x[o+4], x[o+5]
		}
		r.starts[g.e.ID] = st
		r.byID[g.e.ID] = g
	}
	r.computeScales()
	return r, nil
}

func (r *Ref) computeScales() {
	sc := scales{Lmin: math.Inf(1), cond: r.cond * (1 + 0.01/r.sys.linkLoss())}
	for k, v := range r.U {
		if k.Dof == "Phiy" {
			sc.Phi = math.Max(sc.Phi, math.Abs(v))
		} else {
			sc.U = math.Max(sc.U, math.Abs(v))
		}
	}
	for k, v := range r.R {
		if k.Dof == "Phiy" {
			sc.M = math.Max(sc.M, math.Abs(v))
		} else {
			sc.F = math.Max(sc.F, math.Abs(v))
		}
	}
	for _, b := range r.sys.spec.Neumann {
		if b.Dof == "Phiy" {
			sc.M = math.Max(sc.M, math.Abs(b.V))
		} else {
			sc.F = math.Max(sc.F, math.Abs(b.V))
		}
	}
	for gi := range r.sys.geoms {
		g := &r.sys.geoms[gi]
		sc.Lmin = math.Min(sc.Lmin, g.L)
		sc.Lmax = math.Max(sc.Lmax, g.L)
		sc.kF = math.Max(sc.kF, g.EA/g.L)
		if g.beam {
			sc.kF = math.Max(sc.kF, 12*g.EI/(g.L*g.L*g.L))
		}
		st := r.starts[g.e.ID]
		for i := 0; i <= 4; i++ {
			for _, after := range []bool{false, true} {
				v := g.at(st, g.L*float64(i)/4, after)
				sc.U = math.Max(sc.U, math.Max(math.Abs(v.u), math.Abs(v.w)))
				sc.Phi = math.Max(sc.Phi, math.Abs(v.phi))
				sc.F = math.Max(sc.F, math.Max(math.Abs(v.N), math.Abs(v.V)))
				sc.M = math.Max(sc.M, math.Abs(v.M))
			}
		}
		for _, l := range g.e.Loads {
			if l.Kind == "Phiy" {
				sc.M = math.Max(sc.M, math.Abs(l.V0))
			} else if l.Type == "dirac" {
				sc.F = math.Max(sc.F, math.Abs(l.V0))
			} else {
				sc.F = math.Max(sc.F, g.L*math.Max(math.Abs(l.V0), math.Abs(l.V1)))
			}
		}
	}
	// Floors, so that pure rounding noise (e.g. rigid body motion, or loads that go directly into
	// supports) isn't taken for the magnitude of the solution.
	flex := 0.0
	for gi := range r.sys.geoms {
		g := &r.sys.geoms[gi]
		flex = math.Max(flex, g.L/g.EA)
		if g.beam {
			flex = math.Max(flex, g.L*g.L*g.L/(48*g.EI))
		}
	}
	sc.F = math.Max(sc.F, sc.M/sc.Lmax)
	sc.U = math.Max(sc.U, 1e-3*flex*sc.F)
	sc.noise = 1e-15 * r.cond * (1 + 1/r.sys.linkLoss()) * flex * sc.F
	sc.F = math.Max(sc.F, 1e-4*sc.kF*sc.U)
	sc.U = math.Max(sc.U, sc.Phi*sc.Lmin)
	sc.Phi = math.Max(sc.Phi, sc.U/sc.Lmax)
	sc.F = math.Max(sc.F, sc.M/sc.Lmax)
	sc.M = math.Max(sc.M, sc.F*sc.Lmin)
	r.scales = sc
}

// tolerances for deviations due to rounding, see DESIGN.md.
func (sc scales) relTol() float64 { return 1e-9 + 1e-13*sc.cond }
func (sc scales) tolU() float64   { return sc.relTol()*sc.U + sc.noise }
func (sc scales) tolPhi() float64 { return sc.relTol()*(sc.Phi+sc.U/sc.Lmin) + sc.noise/sc.Lmin }
func (sc scales) tolF() float64   { return sc.relTol()*sc.F + 1e-11*sc.kF*(sc.U+sc.Phi*sc.Lmax) }
func (sc scales) tolM() float64 {
	return sc.relTol()*(sc.M+sc.F*sc.Lmax) + 1e-11*sc.kF*(sc.U+sc.Phi*sc.Lmax)*sc.Lmax
}

func (sc scales) tol(f string) float64 {
	switch f {
	case "Ux", "Uz", "Uy":
		return sc.tolU()
	case "Phiy":
		return sc.tolPhi()
	case "Nx", "Vz":
		return sc.tolF()
	case "My":
		return sc.tolM()
	}
	panic("no tolerance for " + f)
}

// tolR is the tolerance of reactions.
func (sc scales) tolR(dof string) float64 {
	if dof == "Phiy" {
		return sc.tolM()
	}
	return sc.tolF()
}

// two-sum/two-product arithmetic for residuals.
func ddAdd(hi, lo, v float64) (float64, float64) {
	s := hi + v
	bb := s - hi
	e := (hi - (s - bb)) + (v - bb)
	return s, lo + e
}

// refinedSolve solves A·x = b with LU on the equilibrated matrix and iterative refinement.
func refinedSolve(A *mat.Dense, b []float64) ([]float64, error) {
	n := len(b)
	rs, cs := make([]float64, n), make([]float64, n)
	for i := range rs {
		rs[i], cs[i] = 1, 1
	}
	S := mat.DenseCopyOf(A)
	for pass := 0; pass < 4; pass++ {
		for i := 0; i < n; i++ {
			m := 0.0
			for j := 0; j < n; j++ {
				m = math.Max(m, math.Abs(A.At(i, j)*cs[j]))
			}
			if m == 0 {
				return nil, fmt.Errorf("singular reference system (row)")
			}
			rs[i] = pow2(1 / m)
		}
		for j := 0; j < n; j++ {
			m := 0.0
			for i := 0; i < n; i++ {
				m = math.Max(m, math.Abs(A.At(i, j)*rs[i]))
			}
			if m == 0 {
				return nil, fmt.Errorf("singular reference system (column)")
			}
			cs[j] = pow2(1 / m)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			S.Set(i, j, A.At(i, j)*rs[i]*cs[j])
		}
	}
	var lu mat.LU
	lu.Factorize(S)
	// The determinant of a large system can leave the range of numbers, which gonum takes for a singular system
	if ld, _ := lu.LogDet(); !math.IsInf(ld, 0) && !math.IsNaN(ld) {
		f := pow2(math.Exp(-ld / float64(n)))
		S.Scale(f, S)
		for i := range rs {
			rs[i] *= f
		}
		lu.Factorize(S)
	}
	if c := lu.Cond(); c > 1e15 || c != c {
		return nil, fmt.Errorf("singular reference system, cond %v", c)
	}
	bb := make([]float64, n)
	for i := range b {
		bb[i] = b[i] * rs[i]
	}
	x := make([]float64, n)
	res := mat.NewVecDense(n, nil)
	dx := mat.NewVecDense(n, nil)
	xlo := make([]float64, n)
	for it := 0; it < 5; it++ {
		for i := 0; i < n; i++ {
			hi, lo := bb[i], 0.0
			for j := 0; j < n; j++ {
				a := S.At(i, j)
				if a == 0 {
					continue
				}
				p := -a * x[j]
				e := math.FMA(-a, x[j], -p)
				hi, lo = ddAdd(hi, lo, p)
				lo += e - a*xlo[j]
			}
			res.SetVec(i, hi+lo)
		}
		if err := lu.SolveVecTo(dx, false, res); err != nil {
			if c, ok := err.(mat.Condition); !ok || math.IsInf(float64(c), 0) {
				return nil, err
			}
		}
		for i := 0; i < n; i++ {
			x[i], xlo[i] = ddAdd(x[i], xlo[i], dx.AtVec(i))
		}
	}
	out := make([]float64, n)
	for j := range out {
		out[j] = (x[j] + xlo[j]) * cs[j]
		if math.IsNaN(out[j]) || math.IsInf(out[j], 0) {
			return nil, fmt.Errorf("reference solution not finite")
		}
	}
	return out, nil
}

func pow2(v float64) float64 { return math.Exp2(math.Round(math.Log2(v))) }
