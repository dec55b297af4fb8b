package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// field is an interpolated function of one element.
type field struct {
	name   string
	pieces deflect.PolySequence
	L      float64
}

func horner(c []float64, x float64) float64 {
	v := 0.0
	for i := len(c) - 1; i >= 0; i-- {
		v = v*x + c[i]
	}
	return v
}

func hornerDiff(c []float64, x float64) float64 {
	v := 0.0
	for i := len(c) - 1; i >= 1; i-- {
		v = v*x + float64(i)*c[i]
	}
	return v
}

// coefScale returns the sum of absolute terms, the scale of rounding errors when evaluating at x.
func coefScale(c []float64, x float64) float64 {
	v := 0.0
	for i := len(c) - 1; i >= 0; i-- {
		v = v*math.Abs(x) + math.Abs(c[i])
	}
	return v
}

func getField(r deflect.ProblemResult, elem, fct string, L float64) (*field, error) {
	ip, err := r.Interpolate(elem, fctOf[fct], 0)
	if err != nil {
		return nil, fmt.Errorf("interpolate %v on %q: %w", fct, elem, err)
	}
	if ip.Element != elem || ip.Quantity != fctOf[fct] {
		return nil, fmt.Errorf("interpolation labelled %q/%v, asked for %q/%v", ip.Element, ip.Quantity, elem, fct)
	}
	f := &field{fct, ip.Piecewise, L}
	return f, f.tiling(fmt.Sprintf("%v on %q", fct, elem))
}

// tiling checks that the pieces cover [0, L] without gap or overlap.
func (f *field) tiling(what string) error {
	if len(f.pieces) == 0 {
		return fmt.Errorf("%v: no polynomial", what)
	}
	tol := 1e-9*f.L + 2.1e-10
	prev := 0.0
	for i, p := range f.pieces {
		if len(p.Coeff) == 0 {
			return fmt.Errorf("%v: piece %v has no coefficients", what, i)
		}
		for _, c := range p.Coeff {
			if math.IsNaN(c) || math.IsInf(c, 0) {
				return fmt.Errorf("%v: coefficients not finite: %v", what, p.Coeff)
			}
		}
		if !(math.Abs(p.X0-prev) <= tol) {
			return fmt.Errorf("%v: piece %v starts at %v, expected %v (pieces %v)", what, i, p.X0, prev, f.pieces)
		}
		if !(p.XE > p.X0) {
			return fmt.Errorf("%v: piece %v has domain [%v, %v]", what, i, p.X0, p.XE)
		}
		prev = p.XE
	}
	if !(math.Abs(prev-f.L) <= tol) {
		return fmt.Errorf("%v: pieces end at %v, element at %v", what, prev, f.L)
	}
	return nil
}

// piece returns the piece that is valid right after (side > 0) or before (side < 0) x.
func (f *field) piece(x float64, side int) *deflect.PolyPiece {
	y := x + float64(side)*(1e-8*f.L+2.5e-10)
	for i := range f.pieces {
		if y <= f.pieces[i].XE {
			return &f.pieces[i]
		}
	}
	return &f.pieces[len(f.pieces)-1]
}

func (f *field) at(x float64, side int) float64 { return horner(f.piece(x, side).Coeff, x) }
func (f *field) diff(x float64, side int) float64 {
	return hornerDiff(f.piece(x, side).Coeff, x)
}

// start and end are the values at the element's ends.
func (f *field) start() float64 { return horner(f.pieces[0].Coeff, f.pieces[0].X0) }
func (f *field) end() float64   { return horner(f.pieces[len(f.pieces)-1].Coeff, f.L) }

func near(c *Ctx, what string, got, want, tol float64) error {
	dev := math.Abs(got - want)
	if tol > 0 {
		c.Margin(what, dev/tol)
	}
	if !(dev <= tol) {
		return fmt.Errorf("%v: got %v, want %v (deviation %.3g, tolerance %.3g)", what, got, want, dev, tol)
	}
	return nil
}

func primary(r deflect.ProblemResult, k dofKey) (float64, error) {
	v, err := r.Primary(k.index())
	if err != nil {
		return 0, fmt.Errorf("primary value at %v: %w", k, err)
	}
	return v.Value, nil
}

func reaction(r deflect.ProblemResult, k dofKey) (float64, error) {
	v, err := r.Reaction(k.index())
	if err != nil {
		return 0, fmt.Errorf("reaction at %v: %w", k, err)
	}
	return v.Value, nil
}

// comparePrimary compares all nodal values with the reference.
func comparePrimary(c *Ctx, s *Spec, r deflect.ProblemResult, ref *Ref) error {
	for _, k := range s.dofs() {
		v, err := primary(r, k)
		if err != nil {
			return err
		}
		if err := near(c, fmt.Sprintf("displacement %v", k), v, ref.U[k], ref.scales.tol(k.Dof)); err != nil {
			return err
		}
	}
	return nil
}

func compareReactions(c *Ctx, s *Spec, r deflect.ProblemResult, ref *Ref) error {
	for _, k := range s.dofs() {
		v, err := reaction(r, k)
		if err != nil {
			return err
		}
		if err := near(c, fmt.Sprintf("reaction %v", k), v, ref.R[k], ref.scales.tolR(k.Dof)); err != nil {
			return err
		}
	}
	return nil
}

// samplePoints returns points with sides that determine a piecewise polynomial of degree 5.
type xSide struct {
	x    float64
	side int
}

func samplePoints(xs []float64) []xSide {
	var out []xSide
	for i := 1; i < len(xs); i++ {
		a, b := xs[i-1], xs[i]
		out = append(out, xSide{a, 1})
		for _, f := range []float64{0.17, 0.35, 0.5, 0.68, 0.86} {
			out = append(out, xSide{a + (b-a)*f, 1})
		}
		out = append(out, xSide{b, -1})
	}
	return out
}

func wideEnough(xs []float64, L float64) bool {
	for i := 1; i < len(xs); i++ {
		if xs[i]-xs[i-1] < 1e-7*L+2e-9 {
			return false
		}
	}
	return true
}

// compareFields compares all interpolations of all elements with the reference.
func compareFields(c *Ctx, s *Spec, r deflect.ProblemResult, ref *Ref) error {
	for i := range s.Elems {
		e := &s.Elems[i]
		g := ref.byID[e.ID]
		xs := g.breakpoints()
		if !wideEnough(xs, g.L) {
			continue
		}
		for _, fct := range kindFcts(e.Kind) {
			f, err := getField(r, e.ID, fct, g.L)
			if err != nil {
				return err
			}
			for _, p := range samplePoints(xs) {
				want := g.at(ref.starts[e.ID], p.x, p.side > 0).get(fct)
				// Concentrated loads exactly at the element's ends: the interpolation describes the
				// section just inside of the element.
				got := f.at(p.x, p.side)
				if err := near(c, fmt.Sprintf("%v on %q at %v", fct, e.ID, p.x), got, want, ref.scales.tol(fct)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// checkFinite checks all numbers of a result.
func checkFinite(s *Spec, r deflect.ProblemResult) error {
	bad := func(v float64) bool { return math.IsNaN(v) || math.IsInf(v, 0) }
	for _, v := range r.PrimaryAll() {
		if bad(v.Value) {
			return fmt.Errorf("displacement %v is not finite: %v", v.Index, v.Value)
		}
	}
	for _, v := range r.ReactionAll() {
		if bad(v.Value) {
			return fmt.Errorf("reaction %v is not finite: %v", v.Index, v.Value)
		}
	}
	for _, ip := range r.InterpolateAll(0) {
		for _, p := range ip.Piecewise {
			if bad(p.X0) || bad(p.XE) {
				return fmt.Errorf("%v on %q has domain [%v, %v]", ip.Quantity, ip.Element, p.X0, p.XE)
			}
			for _, cf := range p.Coeff {
				if bad(cf) {
					return fmt.Errorf("%v on %q is not finite: %v", ip.Quantity, ip.Element, p.Coeff)
				}
			}
		}
	}
	return nil
}
