package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

func init() {
	register("C17",
		sub("eval", "polynomial pieces evaluated inside and outside of their domain; non-trivial: degree above zero", 120000, 500000, genEval, checkEval),
		sub("trim", "piecewise polynomials with small trailing coefficients; non-trivial: something to trim", 120000, 500000, genTrim, checkTrim),
		sub("compact", "piecewise polynomials with nearly identical neighbours; non-trivial: something to merge", 120000, 500000, genCompact, checkCompact),
		sub("lookup", "interval lookup; non-trivial: several pieces", 80000, 300000, genLookup, checkLookup))
	register("C18",
		sub("rectangle", "dimensions and roll angle; non-trivial: all", 120000, 300000, genRectangle, checkRectangle),
		sub("constants", "parameter maps; non-trivial: all", 120000, 300000, genConstants, checkConstants))
	register("C19",
		sub("assemble", "element in a larger system with previous content; non-trivial: loads or hinges", 40000, 300000, genAssembly, checkAssembly))
	register("C20",
		sub("transform", "sequence of inclined supports on systems of different size; non-trivial: more than two equations", 50000, 300000, genTransform, checkTransform))
	register("C21",
		sub("definite", "positive definite systems; non-trivial: more than one equation", 40000, 300000, genDefinite, checkDefinite),
		sub("refused", "indefinite or singular systems; non-trivial: all", 30000, 300000, genIndefinite, checkIndefinite),
		sub("strategy", "structures solved with another strategy, or with a failing one; non-trivial: loaded", 12000, 150000, genStrategy, checkStrategy))
}

// ---------------------------------------------------------------------------------------------------------- C17

type Piece struct {
	X0, XE float64
	C      []float64
}

func toSequence(ps []Piece) deflect.PolySequence {
	var out deflect.PolySequence
	for _, p := range ps {
		out = append(out, deflect.PolyPiece{X0: p.X0, XE: p.XE, Coeff: append([]float64{}, p.C...)})
	}
	return out
}

func genCoeffs(t *rapid.T, maxDeg int) []float64 {
	n := 1 + pick(t, maxDeg+1)
	mag := oneOf(t, 1.0, 1.0, 1e3, 1e-4, 1e6)
	out := make([]float64, n)
	for i := range out {
		if chance(t, 0.15) {
			continue
		}
		out[i] = mag * signed(t) * oneOf(t, 1.0, 1.0, 10, 0.01)
	}
	return out
}

type EvalCase struct {
	P Piece
	X float64
	N string // what kind of x
}

func genEval(t *rapid.T) *EvalCase {
	x0 := oneOf(t, 0, 0, between(t, -5, 5))
	l := logBetween(t, 1e-2, 100)
	e := &EvalCase{P: Piece{x0, x0 + l, genCoeffs(t, 8)}, N: oneOf(t, "inside", "inside", "start", "end", "before", "after", "zero")}
	off := oneOf(t, 1e-8, 1e-6, 1e-3, 0.1, 1.0, 10, 1e6)
	switch e.N {
	case "inside":
		e.X = x0 + l*frac(t)
	case "start":
		e.X = e.P.X0
	case "end":
		e.X = e.P.XE
	case "before":
		e.X = e.P.X0 - off*l
	case "after":
		e.X = e.P.XE + off*l
	}
	return e
}

func checkEval(c *Ctx, e *EvalCase) error {
	c.NonTrivial(len(e.P.C) > 1)
	p := toSequence([]Piece{e.P})[0]
	v, err := p.Eval(e.X)
	if p.Degree() != len(e.P.C)-1 {
		return fmt.Errorf("degree is %v", p.Degree())
	}
	if !reflect.DeepEqual(p.Coeff, e.P.C) || p.X0 != e.P.X0 || p.XE != e.P.XE {
		return errors.New("evaluation modified the polynomial")
	}
	inside := e.X >= e.P.X0 && e.X <= e.P.XE
	c.Label(e.N, true)
	if !inside {
		if math.Min(math.Abs(e.X-e.P.X0), math.Abs(e.X-e.P.XE)) < 1e-9 {
			return skipf("too close to the domain")
		}
		if err == nil {
			return fmt.Errorf("evaluation at %v, outside of [%v, %v], returns %v", e.X, e.P.X0, e.P.XE, v)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("evaluation at %v, inside of [%v, %v]: %w", e.X, e.P.X0, e.P.XE, err)
	}
	sum, x := new(big.Float).SetPrec(300), new(big.Float).SetPrec(300).SetFloat64(e.X)
	for i := len(e.P.C) - 1; i >= 0; i-- {
		sum.Mul(sum, x)
		sum.Add(sum, new(big.Float).SetPrec(300).SetFloat64(e.P.C[i]))
	}
	want, _ := sum.Float64()
	return near(c, "value", v, want, 1e-13*coefScale(e.P.C, e.X)+1e-300)
}

type TrimCase struct {
	Ps  []Piece
	Tol float64
}

// pieces draws contiguous domains, sometimes with gaps.
func genDomains(t *rapid.T, n int) []Piece {
	x := oneOf(t, 0, 0, between(t, -3, 3))
	if chance(t, 0.1) {
		x = -float64(1 + pick(t, 3)) // with an end at zero
	}
	var out []Piece
	for i := 0; i < n; i++ {
		l := 0.2 + 3*frac(t)
		if chance(t, 0.1) {
			l = 1
		}
		out = append(out, Piece{X0: x, XE: x + l})
		x += l
		if chance(t, 0.08) {
			x += 1.5
		}
	}
	return out
}

func genTrim(t *rapid.T) *TrimCase {
	tc := &TrimCase{Tol: oneOf(t, 0, 1e-10, 1e-6, 1e-2)}
	tc.Ps = genDomains(t, 1+pick(t, oneOf(t, 4, 4, 4, 4, 4, 4, 4, 4, oneOf(t, 20, 20, 70))))
	for i := range tc.Ps {
		cs := genCoeffs(t, 5)
		n := few(t, 4, 12)
		for k := 0; k < n; k++ {
			cs = append(cs, tc.Tol*oneOf(t, 0, 0.5, -0.5, 0.1, 0.9))
		}
		if chance(t, 0.3) {
			cs[0] = tc.Tol * oneOf(t, 0.5, -0.7, 0, 1.2, -1.5, 1.9)
		}
		tc.Ps[i].C = cs
	}
	return tc
}

// covers returns the value of a sequence at x, and whether x is part of it.
func seqAt(ps deflect.PolySequence, x float64) (v float64, c []float64, ok bool) {
	for i := range ps {
		if x >= ps[i].X0 && x <= ps[i].XE {
			return horner(ps[i].Coeff, x), ps[i].Coeff, true
		}
	}
	return 0, nil, false
}

func checkTrim(c *Ctx, tc *TrimCase) error {
	ps := toSequence(tc.Ps)
	ps.TrimTrailingZeros(tc.Tol)
	if len(ps) != len(tc.Ps) {
		return fmt.Errorf("%v pieces", len(ps))
	}
	for i, p := range ps {
		orig := tc.Ps[i]
		if p.X0 != orig.X0 || p.XE != orig.XE {
			return fmt.Errorf("domain of piece %v changed to [%v, %v]", i, p.X0, p.XE)
		}
		if len(p.Coeff) == 0 || len(p.Coeff) > len(orig.C) {
			return fmt.Errorf("piece %v has coefficients %v, originally %v", i, p.Coeff, orig.C)
		}
		if math.Abs(orig.C[0]) <= tc.Tol*0.999 && p.Coeff[0] != 0 {
			return fmt.Errorf("piece %v: the constant %v is kept: %v, tolerance %v", i, orig.C[0], p.Coeff, tc.Tol)
		}
		last := len(p.Coeff) - 1
		if last > 0 && math.Abs(p.Coeff[last]) <= tc.Tol*0.999 || last > 0 && p.Coeff[last] == 0 {
			return fmt.Errorf("piece %v has a removable coefficient: %v, tolerance %v", i, p.Coeff, tc.Tol)
		}
		for k, v := range orig.C {
			if k < len(p.Coeff) && p.Coeff[k] == v {
				continue
			}
			c.NonTrivial(true)
			if k > 0 && k < len(p.Coeff) || math.Abs(v) > tc.Tol*1.001 || k == 0 && p.Coeff[0] != 0 {
				return fmt.Errorf("piece %v: coefficient %v (%v) changed or was removed: %v, tolerance %v", i, k, v, p.Coeff, tc.Tol)
			}
		}
	}
	once := copyPoly(ps)
	ps.TrimTrailingZeros(tc.Tol)
	if !reflect.DeepEqual(once, copyPoly(ps)) {
		return fmt.Errorf("not idempotent: %v then %v", once, ps)
	}
	return nil
}

func genCompact(t *rapid.T) *TrimCase {
	tc := &TrimCase{Tol: oneOf(t, 0, 1e-10, 1e-6, 1e-2)}
	tc.Ps = genDomains(t, 1+pick(t, oneOf(t, 6, 6, 6, 6, 6, 6, 6, 6, oneOf(t, 20, 20, 70))))
	for i := range tc.Ps {
		if i == 0 || chance(t, 0.3) {
			tc.Ps[i].C = genCoeffs(t, 4)
			continue
		}
		cs := append([]float64{}, tc.Ps[i-1].C...)
		switch pick(t, 4) {
		case 0: // the very same
		case 1: // slightly different
			for k := range cs {
				cs[k] += tc.Tol * oneOf(t, 0, 0.4, 0.8, -0.6)
			}
		case 2: // different
			k := pick(t, len(cs))
			cs[k] += (math.Abs(cs[k]) + 1) * oneOf(t, 3*tc.Tol+1e-7, 0.1)
		case 3:
			cs = append(cs, oneOf(t, 0.3, 1e-3))
		}
		tc.Ps[i].C = cs
	}
	return tc
}

func checkCompact(c *Ctx, tc *TrimCase) error {
	orig := toSequence(tc.Ps)
	ps := toSequence(tc.Ps).CompactIdentical(tc.Tol)
	c.NonTrivial(len(ps) < len(orig))
	c.Label("merged", len(ps) < len(orig))
	c.Label("merged several", len(ps) < len(orig)-1)
	if len(ps) == 0 {
		return errors.New("nothing left")
	}
	clearly := func(a, b deflect.PolyPiece) bool {
		if len(a.Coeff) != len(b.Coeff) || a.XE != b.X0 {
			return false
		}
		for k := range a.Coeff {
			if d := math.Abs(a.Coeff[k] - b.Coeff[k]); d > 0.95*tc.Tol && d > 0 {
				return false
			}
		}
		return true
	}
	for i := range ps {
		if i > 0 && clearly(ps[i-1], ps[i]) {
			return fmt.Errorf("neighbours could be merged: %v, tolerance %v", ps, tc.Tol)
		}
	}
	// Same domain
	type iv struct{ a, b float64 }
	domain := func(ps deflect.PolySequence) (out []iv) {
		for _, p := range ps {
			if n := len(out); n > 0 && out[n-1].b == p.X0 {
				out[n-1].b = p.XE
			} else {
				out = append(out, iv{p.X0, p.XE})
			}
		}
		return out
	}
	if a, b := domain(orig), domain(ps); !reflect.DeepEqual(a, b) {
		return fmt.Errorf("domain changed from %v to %v", a, b)
	}
	// Same values
	for _, p := range orig {
		for _, f := range []float64{0.01, 0.3, 0.62, 0.99} {
			x := p.X0 + f*(p.XE-p.X0)
			v, _, ok := seqAt(ps, x)
			if !ok {
				return fmt.Errorf("%v no longer covered", x)
			}
			bound, pw := 0.0, 1.0
			for _, cf := range p.Coeff {
				bound += pw * math.Max(1, 1.1*math.Abs(cf)+tc.Tol)
				pw *= math.Abs(x)
			}
			if err := near(c, fmt.Sprintf("value at %v", x), v, horner(p.Coeff, x), 1.01*tc.Tol*bound+1e-12*coefScale(p.Coeff, x)); err != nil {
				return err
			}
		}
	}
	once := copyPoly(ps)
	if again := ps.CompactIdentical(tc.Tol); !reflect.DeepEqual(once, copyPoly(again)) {
		return fmt.Errorf("not idempotent: %v then %v", once, again)
	}
	return nil
}

type LookupCase struct {
	Ps     []Piece
	X0, XE float64
}

func genLookup(t *rapid.T) *LookupCase {
	l := &LookupCase{Ps: genDomains(t, pick(t, oneOf(t, 6, 6, 6, 6, 6, 6, oneOf(t, 25, 25, 70))))}
	for i := range l.Ps {
		l.Ps[i].C = []float64{float64(i)}
		if i > 0 && chance(t, 0.2) { // same start or end as another one, or entirely the same domain
			o := l.Ps[pick(t, i)]
			switch pick(t, 3) {
			case 0:
				l.Ps[i] = o
			case 1:
				l.Ps[i].X0 = o.X0
			case 2:
				l.Ps[i].XE = o.XE
			}
		}
	}
	if len(l.Ps) > 0 {
		a, b := l.Ps[pick(t, len(l.Ps))], l.Ps[pick(t, len(l.Ps))]
		switch pick(t, 5) {
		case 0, 1, 2:
			l.X0, l.XE = a.X0, a.XE
		case 3:
			l.X0, l.XE = a.X0, b.XE
		case 4:
			l.X0, l.XE = a.X0, a.XE+oneOf(t, 1e-6, -1e-3, 1)
		}
	}
	return l
}

func checkLookup(c *Ctx, l *LookupCase) error {
	c.NonTrivial(len(l.Ps) > 1)
	want := -1
	for i, p := range l.Ps {
		if math.Abs(p.X0-l.X0) < 1e-12 && math.Abs(p.XE-l.XE) < 1e-12 {
			want = i
			break
		}
	}
	c.Label("found", want >= 0)
	if got := toSequence(l.Ps).IntervalIndex(l.X0, l.XE); got != want {
		return fmt.Errorf("index of [%v, %v] is %v, want %v", l.X0, l.XE, got, want)
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------------- C18

type Rectangle struct{ B, H, Roll float64 }

func genDimension(t *rapid.T) float64 {
	v := logBetween(t, 1e-4, 1e3)
	if chance(t, 0.2) {
		v = logBetween(t, 1e-12, 1e12)
	}
	switch pick(t, 8) {
	case 5:
		return float64(1 + pick(t, 20))
	case 6:
		return 0
	case 7:
		return -v
	}
	return v
}

func genRectangle(t *rapid.T) *Rectangle {
	r := &Rectangle{genDimension(t), genDimension(t), oneOf(t, 0, 0.3, 1.0, 7, -0.1, -1e-9)}
	if chance(t, 0.3) {
		r.Roll = logBetween(t, 1e-9, 1e8)
	}
	if chance(t, 0.1) {
		r.H = r.B
	}
	if chance(t, 0.05) {
		r.Roll = math.Abs(oneOf(t, r.B, r.H))
	}
	return r
}

// torsion is the series solution for a rectangle with sides a >= b.
func torsion(a, b float64) float64 {
	if a < b {
		a, b = b, a
	}
	sum := 0.0
	for n := 1; n < 200; n += 2 {
		k := float64(n)
		sum += math.Tanh(k*math.Pi*a/(2*b)) / math.Pow(k, 5)
	}
	return a * b * b * b / 3 * (1 - 192/math.Pow(math.Pi, 5)*b/a*sum)
}

func checkRectangle(c *Ctx, r *Rectangle) error {
	c.NonTrivial(true)
	valid := r.B > 0 && r.H > 0 && r.Roll >= 0
	c.Label("valid", valid)
	cs, err := deflect.NewRectangularCrossSection(r.B, r.H, r.Roll)
	if !valid {
		if err == nil {
			return fmt.Errorf("accepted %+v", *r)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("refused %+v: %w", *r, err)
	}
	for _, v := range []struct {
		what      string
		got, want float64
		tol       float64
	}{
		{"area", cs.Area(), r.B * r.H, 1e-13},
		{"Iyy", cs.Iyy(), r.B * r.H * r.H * r.H / 12, 1e-13},
		{"Izz", cs.Izz(), r.H * r.B * r.B * r.B / 12, 1e-13},
		{"Ixx", cs.Ixx(), torsion(r.B, r.H), 8e-3},
		{"roll", cs.RollAngle(), r.Roll, 0},
	} {
		if err := near(c, v.what, v.got, v.want, v.tol*v.want); err != nil {
			return err
		}
	}
	return nil
}

type Constants struct{ P map[string]float64 }

func genConstants(t *rapid.T) *Constants {
	co := &Constants{map[string]float64{}}
	for _, k := range []string{"A", "Iyy", "Izz", "Ixx", "roll"} {
		p := 0.93
		if k == "Ixx" || k == "roll" {
			p = 0.6
		}
		if chance(t, p) {
			v := logBetween(t, 1e-9, 1e3)
			if chance(t, 0.2) {
				v = logBetween(t, 1e-15, 1e15)
			}
			switch {
			case chance(t, 0.05):
				v = 0
			case chance(t, 0.05):
				v = -v
			}
			co.P[k] = v
		}
	}
	return co
}

func checkConstants(c *Ctx, co *Constants) error {
	c.NonTrivial(true)
	valid := true
	for _, k := range []string{"A", "Iyy", "Izz"} {
		valid = valid && co.P[k] > 0
	}
	valid = valid && co.P["Ixx"] >= 0 && co.P["roll"] >= 0
	c.Label("valid", valid)
	in := map[string]float64{}
	for k, v := range co.P {
		in[k] = v
	}
	cs, err := deflect.NewConstantsCrossSections(in)
	if !reflect.DeepEqual(in, co.P) {
		return errors.New("parameters modified")
	}
	if !valid {
		if err == nil {
			return fmt.Errorf("accepted %v", co.P)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("refused %v: %w", co.P, err)
	}
	got := []float64{cs.Area(), cs.Iyy(), cs.Izz(), cs.Ixx(), cs.RollAngle()}
	want := []float64{co.P["A"], co.P["Iyy"], co.P["Izz"], co.P["Ixx"], co.P["roll"]}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("reports %v for %v", got, want)
	}
	// Later changes of the map have no influence
	in["A"] = 7
	if cs.Area() != co.P["A"] {
		return errors.New("section depends on the caller's map")
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------------- C19

// positions discovers equation numbers through the public API: an inclined support at 90 degrees exchanges the entries of
// its two degrees of freedom.
func positions(idx deflect.EqLayout, dofs []deflect.Index) (map[deflect.Index]int, error) {
	n := len(dofs)
	out := map[deflect.Index]int{}
	if n < 2 {
		return nil, errors.New("need two degrees of freedom")
	}
	for a := 0; a+1 < n; a++ {
		tr, _ := deflect.NewInclinedSupport(dofs[a], dofs[a+1], math.Pi/2)
		k := mat.NewSymDense(n, nil)
		r, d := mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
		for i := 0; i < n; i++ {
			r.SetVec(i, float64(i+1))
		}
		tr.Pre(idx, k, r, d)
		i, j := -1, -1
		for m := 0; m < n; m++ {
			if v := r.AtVec(m); math.Abs(v-float64(m+1)) > 0.5 {
				if v < 0 {
					j = m
				} else {
					i = m
				}
			}
		}
		if i < 0 || j < 0 {
			return nil, fmt.Errorf("%v and %v don't have two distinct equations", dofs[a], dofs[a+1])
		}
		if old, ok := out[dofs[a]]; ok && old != i {
			return nil, fmt.Errorf("%v has equations %v and %v", dofs[a], old, i)
		}
		out[dofs[a]], out[dofs[a+1]] = i, j
	}
	return out, nil
}

type Assembly struct {
	S    *Spec // the first element is the subject
	Seed []float64
	N    int
}

func genFill(t *rapid.T) []float64 {
	n := 7
	out := make([]float64, n)
	for i := range out {
		out[i] = signed(t)
	}
	return out
}

func genAssembly(t *rapid.T) *Assembly {
	fam := oneOf(t, allFamilies...)
	s := genGeometry(t, fam, &genOpts{maxNodes: 5, oddIDs: true})
	dofs := s.dofs()
	for _, d := range dofs {
		if chance(t, 0.3) {
			s.Dirichlet = append(s.Dirichlet, BC{d.Node, d.Dof, 0})
		}
	}
	if chance(t, 0.4) && len(s.Elems[0].Hinges) == 0 {
		s.Elems[0].Hinges = genHinges(t, s.Elems[0].Kind)
	}
	n := few(t, 4, 12)
	for i := 0; i < n; i++ {
		s.Elems[0].Loads = append(s.Elems[0].Loads, genElementLoad(t, s.Elems[0].Kind, s.length(&s.Elems[0]), s.forceScale()))
	}
	permute(t, s.Dirichlet)
	return &Assembly{s, genFill(t), 1 + pick(t, 3)}
}

func fillVec(n int, seed []float64, scale float64) *mat.VecDense {
	v := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		v.SetVec(i, scale*seed[i%len(seed)]*(1+0.37*float64(i/len(seed))))
	}
	return v
}

func fillSym(n int, seed []float64, scale float64) *mat.SymDense {
	k := mat.NewSymDense(n, nil)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			k.SetSym(i, j, scale*seed[(3*i+5*j+i*j)%len(seed)]*(1+0.21*float64(i%3)-0.13*float64(j%4)))
		}
	}
	return k
}

func checkAssembly(c *Ctx, as *Assembly) error {
	s := as.S
	e := &s.Elems[0]
	classify(c, s)
	c.NonTrivial(len(e.Loads) > 0 || len(e.Hinges) > 0)
	b, err := s.build()
	if err != nil {
		return err
	}
	el := b.Problem.Elements[0]
	// Own indices
	set := map[deflect.Index]struct{}{}
	el.Indices(set)
	own := map[deflect.Index]bool{}
	for _, n := range []string{e.N0, e.N1} {
		for _, d := range kindDofs(e.Kind) {
			own[dofKey{n, d}.index()] = true
		}
	}
	if len(set) != len(own) {
		return fmt.Errorf("element uses %v, want %v", set, own)
	}
	for i := range set {
		if !own[i] {
			return fmt.Errorf("element uses %v", i)
		}
	}
	if el.NumNodes() != 2 || el.ID() != e.ID {
		return fmt.Errorf("element has %v nodes, name %q", el.NumNodes(), el.ID())
	}
	// Systems: the entire problem, and the element alone
	idx, err := deflect.NewEqLayout(b.Problem)
	if err != nil {
		return err
	}
	dofs := s.dofs()
	var sym []deflect.Index
	for _, k := range dofs {
		sym = append(sym, k.index())
	}
	pos, err := positions(idx, sym)
	if err != nil {
		return err
	}
	n := len(dofs)
	g := s.geomOf(e)
	stiff := g.EA / g.L
	force := s.forceScale()
	// References
	y, err := newSystem(&Spec{Nodes: s.Nodes, Mats: s.Mats, CSs: s.CSs, Elems: s.Elems[:1]})
	if err != nil {
		return err
	}
	K := y.stiffness()
	at := func(k dofKey) int {
		if i, ok := y.at[k]; ok {
			return i
		}
		return -1
	}
	scale := 0.0
	for a := 0; a < 6; a++ {
		ls := (&geom{L: g.L, EA: g.EA, EI: g.EI, beam: g.beam}).localStiffness()
		scale = math.Max(scale, ls[a][a])
	}
	for round := 0; round < as.N; round++ {
		k, r, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
		if round > 0 || as.Seed[0] > 0 {
			k, r, d = fillSym(n, as.Seed, stiff), fillVec(n, as.Seed, force), fillVec(n, as.Seed[1:], 0.01*g.L)
			c.Label("previous content", true)
		}
		k0, r0, d0 := mat.NewSymDense(n, nil), mat.VecDenseCopyOf(r), mat.VecDenseCopyOf(d)
		k0.CopySym(k)
		el.Assemble(idx, k, r, d)
		if !mat.Equal(d, d0) {
			return errors.New("primary values modified")
		}
		// Stiffness: as in the textbook, and only in the element's own equations
		dk, dr := map[[2]int]float64{}, map[int]float64{}
		for i, a := range dofs {
			pi := pos[a.index()]
			dr[i] = r.AtVec(pi) - r0.AtVec(pi)
			if !own[a.index()] && dr[i] != 0 {
				return fmt.Errorf("load on foreign %v changed", a)
			}
			for j, bb := range dofs {
				pj := pos[bb.index()]
				v := k.At(pi, pj) - k0.At(pi, pj)
				dk[[2]int{i, j}] = v
				if (!own[a.index()] || !own[bb.index()]) && v != 0 {
					return fmt.Errorf("foreign stiffness %v-%v changed", a, bb)
				}
				want := 0.0
				if own[a.index()] && own[bb.index()] {
					want = K.At(at(a), at(bb))
				}
				if err := near(c, fmt.Sprintf("stiffness %v-%v", a, bb), v, want, 1e-9*scale+1e-13*stiff); err != nil {
					return err
				}
			}
		}
		// Rigid body motions: no force, and loads do the same work
		p0, p1 := s.node(e.N0), s.node(e.N1)
		for m := 0; m < 6; m++ {
			if e.Kind != "truss3d" && (m == 1 || m == 3 || m == 5) {
				continue // only translations x, z and rotation about y exist in the plane
			}
			disp := func(p [3]float64) [3]float64 {
				q := [3]float64{p[0] - p0.X, p[1] - p0.Y, p[2] - p0.Z}
				switch m {
				case 0, 1, 2:
					var v [3]float64
					v[m] = 1
					return v
				case 3: // about x
					return [3]float64{0, -q[2] / g.L, q[1] / g.L}
				case 4: // about y
					return [3]float64{q[2] / g.L, 0, -q[0] / g.L}
				}
				return [3]float64{-q[1] / g.L, q[0] / g.L, 0}
			}
			phi := 0.0
			if m == 4 {
				phi = 1 / g.L
			}
			mode := make([]float64, n)
			for i, a := range dofs {
				if !own[a.index()] {
					continue
				}
				nd := p0
				if a.Node == p1.ID {
					nd = p1
				}
				if a.Dof == "Phiy" {
					mode[i] = phi
				} else {
					mode[i] = disp([3]float64{nd.X, nd.Y, nd.Z})[axisOf[a.Dof]]
				}
			}
			work := 0.0
			for i := range dofs {
				f := 0.0
				for j := range dofs {
					f += dk[[2]int{i, j}] * mode[j]
				}
				if err := near(c, fmt.Sprintf("force at %v under rigid body motion %v", dofs[i], m), f, 0, 1e-8*scale*(1+g.L)*(1+1/g.L)); err != nil {
					return err
				}
				work += dr[i] * mode[i]
			}
			want, abs := 0.0, 0.0
			add := func(l Load, x, v float64) {
				u := disp([3]float64{p0.X + x*g.ex[0], p0.Y + x*g.ex[1], p0.Z + x*g.ex[2]})
				w := 0.0
				switch l.Kind {
				case "Ux":
					w = v * (u[0]*g.ex[0] + u[1]*g.ex[1] + u[2]*g.ex[2])
				case "Uz":
					w = v * (u[0]*g.s - u[2]*g.c)
				case "Phiy":
					w = -v * phi
				}
				want += w
				abs += math.Abs(v)
			}
			for _, l := range e.Loads {
				switch l.Type {
				case "dirac":
					add(l, l.Pos, l.V0)
				case "constant":
					add(l, g.L/2, l.V0*g.L)
				case "linear":
					add(l, g.L/2, l.V0*g.L)
					add(l, g.L*2/3, (l.V1-l.V0)*g.L/2)
				}
			}
			if err := near(c, fmt.Sprintf("work of loads on rigid body motion %v", m), work, want, 1e-9*abs*(1+1/g.L)+1e-12*force); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------------- C20

type TransformStep struct {
	Link   int
	System int
	Seed   []float64
	Sparse int // drops entries, 0 keeps all
	Mag    float64
}

type TransformCase struct {
	Systems []*Spec // only nodes, elements and supports matter
	Links   []Link  // refer to dofs of nodes A and B
	Steps   []TransformStep
}

func genTransform(t *rapid.T) *TransformCase {
	tc := &TransformCase{}
	ns := 1 + pick(t, 3)
	for i := 0; i < ns; i++ {
		s := genGeometry(t, oneOf(t, "frame2d", "truss3d", "mix2d", "truss2d"), &genOpts{maxNodes: oneOf(t, 2, 4, 6, 2, 4, 6, 2, 4, 6, 2, 4, 6, 20)})
		dofs := s.dofs()
		for _, d := range dofs {
			if chance(t, 0.4) {
				s.Dirichlet = append(s.Dirichlet, BC{d.Node, d.Dof, 0})
			}
		}
		tc.Systems = append(tc.Systems, s)
	}
	names := map[string]string{"A": "A", "B": "B"}
	if chance(t, 0.5) {
		for _, id := range []string{"A", "B"} {
			names[id] = oneOf(t, "zz", "10", "\u00e9", "Ux", "n1/Ux", " ", "\u7bc0", "AB", "a longer name", "77") + oneOf(t, "", "", "'", "x") + oneOf(t, "", id)
		}
		if names["A"] == names["B"] {
			names["B"] += "B"
		}
		for _, s := range tc.Systems {
			s.renameNodes(names)
		}
	}
	nl := 1 + few(t, 3, 10)
	for i := 0; i < nl; i++ {
		l := Link{names[oneOf(t, "A", "A", "A", "B")], "Ux", "Uz", genAngle(t)}
		switch pick(t, 4) {
		case 1:
			l.From, l.To = "Uz", "Ux"
		case 2:
			l.From, l.To = "Uz", oneOf(t, "Phiy", "Uy")
		case 3:
			l.From, l.To = oneOf(t, "Phiy", "Uy"), "Ux"
		}
		if chance(t, 0.1) {
			l.Angle = oneOf(t, 0, 1e-9, math.Pi/2, 100, -1e4)
		}
		tc.Links = append(tc.Links, l)
	}
	n := 1 + few(t, 5, 16)
	for i := 0; i < n; i++ {
		tc.Steps = append(tc.Steps, TransformStep{pick(t, nl), pick(t, ns), genFill(t), oneOf(t, 0, 0, 2, 3, 4, 5), oneOf(t, 0, 1e7, 1e-7, logBetween(t, 1e-12, 1e12))})
	}
	return tc
}

func checkTransform(c *Ctx, tc *TransformCase) error {
	type sys struct {
		idx  deflect.EqLayout
		pos  map[deflect.Index]int
		n    int
		have map[deflect.Index]bool
	}
	var systems []sys
	for _, s := range tc.Systems {
		b, err := s.build()
		if err != nil {
			return err
		}
		idx, err := deflect.NewEqLayout(b.Problem)
		if err != nil {
			return err
		}
		y := sys{idx: idx, have: map[deflect.Index]bool{}}
		var sym []deflect.Index
		for _, k := range s.dofs() {
			sym = append(sym, k.index())
			y.have[k.index()] = true
		}
		y.n = len(sym)
		if y.pos, err = positions(idx, sym); err != nil {
			return err
		}
		systems = append(systems, y)
	}
	var trs []deflect.Transformer
	for _, l := range tc.Links {
		from, to := dofKey{l.Node, l.From}.index(), dofKey{l.Node, l.To}.index()
		tr, bc := deflect.NewInclinedSupport(from, to, l.Angle)
		if bc.Index != to || bc.Value != 0 {
			return fmt.Errorf("boundary condition is %v", bc)
		}
		trs = append(trs, tr)
	}
	sizes := map[int]bool{}
	for si, st := range tc.Steps {
		l := tc.Links[st.Link]
		y := systems[st.System]
		from, to := dofKey{l.Node, l.From}.index(), dofKey{l.Node, l.To}.index()
		if !y.have[from] || !y.have[to] {
			continue
		}
		n := y.n
		sizes[n] = true
		c.NonTrivial(n > 2)
		c.Label("different sizes", len(sizes) > 1)
		mag := st.Mag
		if mag == 0 {
			mag = 1
		}
		k, r, d := fillSym(n, st.Seed, 10*mag), fillVec(n, st.Seed, 1/mag), fillVec(n, st.Seed[2:], 3*mag)
		for a := 0; st.Sparse > 0 && a < n; a++ {
			for b := a; b < n; b++ {
				if a != b && (a*b+a+b+si)%st.Sparse != 0 {
					k.SetSym(a, b, 0)
				}
			}
			if (a+si)%st.Sparse == 1 {
				r.SetVec(a, 0)
				d.SetVec(a, 0)
			}
		}
		c.Label("sparse", st.Sparse > 0)
		T := mat.NewDense(n, n, nil)
		for i := 0; i < n; i++ {
			T.Set(i, i, 1)
		}
		i, j := y.pos[from], y.pos[to]
		c.Label("from before to", i < j)
		c.Label("from after to", i > j)
		cs, sn := math.Cos(l.Angle), math.Sin(l.Angle)
		T.Set(i, i, cs)
		T.Set(i, j, -sn)
		T.Set(j, i, sn)
		T.Set(j, j, cs)
		var kt, want mat.Dense
		kt.Mul(k, T)
		want.Mul(T.T(), &kt)
		var wr, wd mat.VecDense
		wr.MulVec(T.T(), r)
		wd.MulVec(T.T(), d)
		r0, d0 := mat.VecDenseCopyOf(r), mat.VecDenseCopyOf(d)
		k0 := mat.NewSymDense(n, nil)
		k0.CopySym(k)
		trs[st.Link].Pre(y.idx, k, r, d)
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				touched := a == i || a == j || b == i || b == j
				if !touched && k.At(a, b) != k0.At(a, b) {
					return fmt.Errorf("step %v: unrelated entry %v, %v changed", si, a, b)
				}
				if err := near(c, fmt.Sprintf("step %v: matrix entry %v, %v", si, a, b), k.At(a, b), want.At(a, b), 1e-11*mag); err != nil {
					return err
				}
			}
			if a != i && a != j && (r.AtVec(a) != r0.AtVec(a) || d.AtVec(a) != d0.AtVec(a)) {
				return fmt.Errorf("step %v: unrelated vector entry %v changed", si, a)
			}
			if err := near(c, fmt.Sprintf("step %v: right-hand side %v", si, a), r.AtVec(a), wr.AtVec(a), 1e-12/mag); err != nil {
				return err
			}
			if err := near(c, fmt.Sprintf("step %v: vector %v", si, a), d.AtVec(a), wd.AtVec(a), 1e-12*mag); err != nil {
				return err
			}
		}
		trs[st.Link].Post(y.idx, r, d)
		for a := 0; a < n; a++ {
			if err := near(c, fmt.Sprintf("step %v: restored right-hand side %v", si, a), r.AtVec(a), r0.AtVec(a), 1e-12/mag); err != nil {
				return err
			}
			if err := near(c, fmt.Sprintf("step %v: restored vector %v", si, a), d.AtVec(a), d0.AtVec(a), 1e-12*mag); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------------- C21

type LinSys struct {
	A    [][]float64
	B    []float64
	Kind string
	Cond float64
	View bool // a is a part of a larger matrix
}

// orthogonal draws a random rotation from a sequence of plane rotations.
func orthogonal(t *rapid.T, n int) *mat.Dense {
	q := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		q.Set(i, i, 1)
	}
	leave := 0.3
	if n > 12 {
		leave = 0.8
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if chance(t, leave) && n > 3 {
				continue
			}
			a := genAngle(t)
			c, s := math.Cos(a), math.Sin(a)
			for k := 0; k < n; k++ {
				x, y := q.At(k, i), q.At(k, j)
				q.Set(k, i, c*x-s*y)
				q.Set(k, j, s*x+c*y)
			}
		}
	}
	return q
}

func compose(q *mat.Dense, d []float64) [][]float64 {
	n := len(d)
	out := make([][]float64, n)
	for i := range out {
		out[i] = make([]float64, n)
	}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			v := 0.0
			for k := range d {
				v += q.At(i, k) * d[k] * q.At(j, k)
			}
			out[i][j], out[j][i] = v, v
		}
	}
	return out
}

func genDefinite(t *rapid.T) *LinSys {
	n := 1 + pick(t, 12)
	if chance(t, 0.01) {
		n = oneOf(t, 16, 17, 32, 33, 64, 65, 70, 100)
		if chance(t, 0.05) {
			n = oneOf(t, 128, 150, 256, 300)
		}
	}
	l := &LinSys{Kind: "definite", View: chance(t, 0.4)}
	mag := logBetween(t, 1e-6, 1e9)
	spread := oneOf(t, 1, 10, 1e3, 1e6)
	d := make([]float64, n)
	lo, hi := math.Inf(1), 0.0
	for i := range d {
		d[i] = mag * logBetween(t, 1, spread*1.0001)
		lo, hi = math.Min(lo, d[i]), math.Max(hi, d[i])
	}
	l.Cond = hi / lo
	l.A = compose(orthogonal(t, n), d)
	// Badly scaled, but well-conditioned after scaling
	if chance(t, 0.3) {
		for i := 0; i < n; i++ {
			s := math.Exp2(math.Round(between(t, -6, 6)))
			for j := 0; j < n; j++ {
				l.A[i][j] *= s
				l.A[j][i] *= s
			}
		}
		l.Cond *= 1e3
	}
	for i := 0; i < n; i++ {
		l.B = append(l.B, mag*signed(t))
	}
	return l
}

func (l *LinSys) matrix() *mat.SymDense {
	n := len(l.A)
	off := 0
	if l.View {
		off = 2
	}
	k := mat.NewSymDense(n+off, nil)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			k.SetSym(i+off, j+off, l.A[i][j])
		}
	}
	if off > 0 {
		k.SetSym(0, 0, 3)
		k.SetSym(0, 2, 5)
		return k.SliceSym(off, n+off).(*mat.SymDense)
	}
	return k
}

func solveLinSys(l *LinSys, s deflect.EquationSolver) (*mat.VecDense, error) {
	n := len(l.A)
	a := l.matrix()
	b := mat.NewVecDense(n, append([]float64{}, l.B...))
	x := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		x.SetVec(i, 99) // previous content must not matter
	}
	err := s.SolveLinearSystem(a, b, x)
	for i := 0; i < n; i++ {
		if b.AtVec(i) != l.B[i] {
			return nil, fmt.Errorf("harness: right-hand side modified")
		}
		for j := 0; j < n; j++ {
			if a.At(i, j) != l.A[min(i, j)][max(i, j)] {
				return nil, fmt.Errorf("harness: coefficient matrix modified")
			}
		}
	}
	return x, err
}

func checkDefinite(c *Ctx, l *LinSys) error {
	n := len(l.A)
	c.NonTrivial(n > 1)
	A := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			A.Set(i, j, l.A[min(i, j)][max(i, j)])
		}
	}
	want, err := refinedSolve(A, l.B)
	if err != nil {
		return skipf("no reference")
	}
	s := deflect.NewCholeskySolver()
	for round := 0; round < 2; round++ {
		x, err := solveLinSys(l, s)
		if err != nil {
			return fmt.Errorf("definite system (condition about %v): %w", l.Cond, err)
		}
		big := 0.0
		for _, v := range want {
			big = math.Max(big, math.Abs(v))
		}
		for i := range want {
			if err := near(c, fmt.Sprintf("unknown %v", i), x.AtVec(i), want[i], big*(1e-11+1e-14*l.Cond)); err != nil {
				return err
			}
		}
	}
	return nil
}

func genIndefinite(t *rapid.T) *LinSys {
	n := 1 + pick(t, 10)
	if chance(t, 0.01) {
		n = oneOf(t, 16, 17, 32, 33, 64, 65, 70, 100)
		if chance(t, 0.05) {
			n = oneOf(t, 128, 150, 256, 300)
		}
	}
	l := &LinSys{Kind: oneOf(t, "negative", "singular", "zero", "gram", "zero row", "dependent"), View: chance(t, 0.4)}
	mag := logBetween(t, 1e-6, 1e9)
	d := make([]float64, n)
	for i := range d {
		d[i] = mag * logBetween(t, 1, 100)
	}
	k := pick(t, n)
	switch l.Kind {
	case "negative":
		d[k] *= -1
	case "singular":
		d[k] = 0
	case "zero":
		for i := range d {
			d[i] = 0
		}
	}
	l.A = compose(orthogonal(t, n), d)
	switch l.Kind {
	case "zero row":
		for i := 0; i < n; i++ {
			l.A[i][k], l.A[k][i] = 0, 0
		}
	case "gram", "dependent": // n vectors in n-1 dimensions, or one that depends on its predecessors
		v := make([][]float64, n)
		for i := range v {
			for j := 0; j < n; j++ {
				v[i] = append(v[i], math.Sqrt(mag)*signed(t))
			}
			if l.Kind == "gram" {
				v[i] = v[i][:n-1]
			}
		}
		if l.Kind == "dependent" {
			clear(v[k])
			for m := 0; m < min(k, 3); m++ {
				f := signed(t)
				for j := range v[k] {
					v[k][j] += f * v[m][j]
				}
			}
		}
		for i := range v {
			for j := range v {
				l.A[i][j] = 0
				for m := range v[i] {
					l.A[i][j] += v[i][m] * v[j][m]
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		l.B = append(l.B, mag*signed(t))
	}
	return l
}

func checkIndefinite(c *Ctx, l *LinSys) error {
	c.NonTrivial(true)
	c.Label(l.Kind, true)
	x, err := solveLinSys(l, deflect.NewCholeskySolver())
	if err == nil {
		return fmt.Errorf("%v system is solved: %v", l.Kind, x.RawVector().Data)
	}
	if len(err.Error()) > 8 && err.Error()[:8] == "harness:" {
		return err
	}
	return nil
}

type Strategy struct {
	S    *Spec
	Fail string // what a failing strategy leaves behind
	Kind string
}

func genStrategy(t *rapid.T) *Strategy {
	return &Strategy{genSpec(t, genOpts{}), oneOf(t, "", "", "", "", "garbage", "nothing", "solution", "nearly", "NaN"), oneOf(t, "gauss", "lu", "qr", "copy")}
}

type otherStrategy struct {
	kind  string
	left  string
	fail  error
	calls int
}

func (o *otherStrategy) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	o.calls++
	if o.fail != nil {
		factor := 1.0
		switch o.left {
		case "garbage":
			for i := 0; i < x.Len(); i++ {
				x.SetVec(i, 1e9)
			}
			return o.fail
		case "NaN":
			for i := 0; i < x.Len(); i++ {
				x.SetVec(i, math.NaN())
			}
			return o.fail
		case "nothing":
			return o.fail
		case "nearly":
			factor = 1 + 1e-6
		}
		if err := deflect.NewCholeskySolver().SolveLinearSystem(a, b, x); err != nil {
			return err
		}
		x.ScaleVec(factor, x)
		return o.fail
	}
	n := a.SymmetricDim()
	switch o.kind {
	case "lu":
		var lu mat.LU
		lu.Factorize(a)
		// gonum takes a system for singular if its determinant is too small a number
		ld, _ := lu.LogDet()
		f := 1.0
		if finite(ld) {
			f = pow2(math.Exp(-ld / float64(n)))
		}
		var scaled mat.Dense
		scaled.Scale(f, a)
		lu.Factorize(&scaled)
		var rhs mat.VecDense
		rhs.ScaleVec(f, b)
		err := lu.SolveVecTo(x, false, &rhs)
		var cond mat.Condition
		if errors.As(err, &cond) {
			return nil
		}
		return err
	case "qr":
		var qr mat.QR
		qr.Factorize(a)
		var y mat.VecDense
		err := qr.SolveVecTo(&y, false, b)
		var cond mat.Condition
		if err != nil && !errors.As(err, &cond) {
			return err
		}
		x.CopyVec(&y)
		return nil
	case "copy":
		d := mat.NewSymDense(n, nil)
		d.CopySym(a)
		return deflect.NewCholeskySolver().SolveLinearSystem(d, mat.VecDenseCopyOf(b), x)
	}
	// Gauss elimination without pivoting
	m := make([][]float64, n)
	for i := range m {
		m[i] = make([]float64, n+1)
		for j := 0; j < n; j++ {
			m[i][j] = a.At(i, j)
		}
		m[i][n] = b.AtVec(i)
	}
	for k := 0; k < n; k++ {
		for i := k + 1; i < n; i++ {
			f := m[i][k] / m[k][k]
			for j := k; j <= n; j++ {
				m[i][j] -= f * m[k][j]
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		v := m[i][n]
		for j := i + 1; j < n; j++ {
			v -= m[i][j] * x.AtVec(j)
		}
		x.SetVec(i, v/m[i][i])
	}
	return nil
}

func checkStrategy(c *Ctx, st *Strategy) error {
	classify(c, st.S)
	c.NonTrivial(st.S.loaded())
	a, err := solveOutcome(st.S)
	if err != nil {
		return err
	}
	b, err := st.S.build()
	if err != nil {
		return err
	}
	idx, err := deflect.NewEqLayout(b.Problem)
	if err != nil {
		return err
	}
	o := &otherStrategy{kind: st.Kind}
	if st.Fail != "" {
		o.left, o.fail = st.Fail, errors.New("the strategy failed")
		if st.Fail == "nearly" {
			o.fail = mat.Condition(1e17)
		}
	}
	r, err := deflect.NewLinearProblemSolver().Solve(b.Problem, idx, o)
	c.Label("failing, leaves "+st.Fail, st.Fail != "")
	c.Label(st.Kind, st.Fail == "")
	if st.Fail != "" {
		if err == nil {
			return errors.New("failure of the strategy is not reported")
		}
		return nil
	}
	if err != nil {
		return err
	}
	if o.calls == 0 {
		return errors.New("the strategy isn't used")
	}
	other, err := outcomeOf(st.S, r, a.ref)
	if err != nil {
		return err
	}
	if err := compareNodal(c, other, a.U, a.R, twice(a.ref.scales.tol), twice(a.ref.scales.tolR)); err != nil {
		return err
	}
	return compareSameFields(c, a, other, func(*Elem, string) float64 { return 1 }, 1)
}
