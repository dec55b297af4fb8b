package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// outcome is a solved structure with the scales of its reference solution.
type outcome struct {
	s   *Spec
	r   deflect.ProblemResult
	ref *Ref
	U   map[dofKey]float64
	R   map[dofKey]float64
}

func solveOutcome(s *Spec) (*outcome, error) {
	ref, err := solveRef(s)
	if err != nil {
		return nil, skipf("no reference solution")
	}
	_, r, err := solveSpec(s)
	if err != nil {
		return nil, fmt.Errorf("stable problem refused: %w", err)
	}
	o := &outcome{s, r, ref, map[dofKey]float64{}, map[dofKey]float64{}}
	for _, k := range s.dofs() {
		if o.U[k], err = primary(r, k); err != nil {
			return nil, err
		}
		if o.R[k], err = reaction(r, k); err != nil {
			return nil, err
		}
	}
	return o, nil
}

// compareNodal compares nodal values with expected ones.
func compareNodal(c *Ctx, o *outcome, U, R map[dofKey]float64, tol func(dof string) float64, tolR func(dof string) float64) error {
	for _, k := range o.s.dofs() {
		if want, ok := U[k]; ok {
			if err := near(c, fmt.Sprintf("displacement %v", k), o.U[k], want, tol(k.Dof)); err != nil {
				return err
			}
		}
		if want, ok := R[k]; ok {
			if err := near(c, fmt.Sprintf("reaction %v", k), o.R[k], want, tolR(k.Dof)); err != nil {
				return err
			}
		}
	}
	return nil
}

func twice(f func(string) float64) func(string) float64 {
	return func(d string) float64 { return 2 * f(d) }
}

// sumTol adds the tolerances of two outcomes.
func sumTol(a, b *outcome) (tol, tolR func(string) float64) {
	return func(d string) float64 { return a.ref.scales.tol(d) + b.ref.scales.tol(d) },
		func(d string) float64 { return a.ref.scales.tolR(d) + b.ref.scales.tolR(d) }
}

// loadSignKind returns the interpolated force that belongs to a load's kind.
var forceOf = map[string]string{"Ux": "Nx", "Uz": "Vz", "Phiy": "My"}

// addShared gives both supports and links to a spec in terms of vectors in the x-z plane.
func rotateXZ(s *Spec, theta float64) *Spec {
	o := s.clone()
	c, sn := math.Cos(theta), math.Sin(theta)
	for i := range o.Nodes {
		x, z := s.Nodes[i].X, s.Nodes[i].Z
		o.Nodes[i].X, o.Nodes[i].Z = c*x-sn*z, sn*x+c*z
	}
	o.Dirichlet, o.Neumann, o.Links = nil, nil, nil
	for _, l := range s.Links {
		if l.From == "Ux" {
			l.Angle += theta
		} else {
			l.Angle -= theta
		}
		o.Links = append(o.Links, l)
	}
	done := map[string]bool{}
	for _, d := range s.Dirichlet {
		if d.Dof == "Phiy" || d.Dof == "Uy" {
			o.Dirichlet = append(o.Dirichlet, d)
			continue
		}
		if done[d.Node] {
			continue
		}
		done[d.Node] = true
		vx, vz := math.NaN(), math.NaN()
		for _, e := range s.Dirichlet {
			if e.Node == d.Node && e.Dof == "Ux" {
				vx = e.V
			} else if e.Node == d.Node && e.Dof == "Uz" {
				vz = e.V
			}
		}
		switch {
		case math.IsNaN(vz):
			o.Links = append(o.Links, Link{d.Node, "Ux", "Uz", theta - math.Pi/2})
		case math.IsNaN(vx):
			o.Links = append(o.Links, Link{d.Node, "Ux", "Uz", theta})
		default:
			o.Dirichlet = append(o.Dirichlet, BC{d.Node, "Uz", sn*vx + c*vz}, BC{d.Node, "Ux", c*vx - sn*vz})
		}
	}
	for _, n := range s.Neumann {
		switch n.Dof {
		case "Ux":
			o.Neumann = append(o.Neumann, BC{n.Node, "Ux", c * n.V}, BC{n.Node, "Uz", sn * n.V})
		case "Uz":
			o.Neumann = append(o.Neumann, BC{n.Node, "Ux", -sn * n.V}, BC{n.Node, "Uz", c * n.V})
		default:
			o.Neumann = append(o.Neumann, n)
		}
	}
	return o
}

// signedPerm is a symmetry of the axes: the component on axis i moves to axis P[i] with sign S[i].
type signedPerm struct {
	P [3]int
	S [3]float64
}

var axisOf = map[string]int{"Ux": 0, "Uy": 1, "Uz": 2}
var axisDof = [3]string{"Ux", "Uy", "Uz"}

// detXZ is the orientation of the map within the x-z plane (only for maps that keep y).
func (m signedPerm) detXZ() float64 {
	d := m.S[0] * m.S[2]
	if m.P[0] == 2 {
		d = -d
	}
	return d
}

func (m signedPerm) dof(d string) (string, float64) {
	if d == "Phiy" {
		return d, m.detXZ()
	}
	i := axisOf[d]
	return axisDof[m.P[i]], m.S[i]
}

func (m signedPerm) apply(s *Spec) *Spec {
	o := s.clone()
	for i := range o.Nodes {
		old := [3]float64{s.Nodes[i].X, s.Nodes[i].Y, s.Nodes[i].Z}
		var v [3]float64
		for k := range old {
			v[m.P[k]] = m.S[k] * old[k]
		}
		o.Nodes[i].X, o.Nodes[i].Y, o.Nodes[i].Z = v[0], v[1], v[2]
	}
	for i, b := range s.Dirichlet {
		d, sg := m.dof(b.Dof)
		o.Dirichlet[i] = BC{b.Node, d, sg * b.V}
	}
	for i, b := range s.Neumann {
		d, sg := m.dof(b.Dof)
		o.Neumann[i] = BC{b.Node, d, sg * b.V}
	}
	for i, l := range s.Links {
		f, sf := m.dof(l.From)
		g, sg := m.dof(l.To)
		o.Links[i] = Link{l.Node, f, g, sf * sg * l.Angle}
	}
	if m.detXZ() < 0 {
		for i := range o.Elems {
			for k := range o.Elems[i].Loads {
				l := &o.Elems[i].Loads[k]
				if o.Elems[i].Kind == "frame2d" && l.Kind != "Ux" {
					l.V0, l.V1 = -l.V0, -l.V1
				}
			}
		}
	}
	return o
}

// fieldSign is the sign of an element's function under a map with the given orientation in the x-z plane.
func fieldSign(fct string, det float64) float64 {
	if fct == "Ux" || fct == "Nx" {
		return 1
	}
	return det
}

// compareSameFields compares all interpolations of two outcomes whose elements have the same IDs.
func compareSameFields(c *Ctx, a, b *outcome, factor func(e *Elem, fct string) float64, xscale float64) error {
	for i := range a.s.Elems {
		e := &a.s.Elems[i]
		g := a.ref.byID[e.ID]
		xs := g.breakpoints()
		if !wideEnough(xs, g.L) || !wideEnough(scaledBy(xs, xscale), g.L*xscale) {
			continue
		}
		for _, fct := range kindFcts(e.Kind) {
			fa, err := getField(a.r, e.ID, fct, g.L)
			if err != nil {
				return err
			}
			fb, err := getField(b.r, e.ID, fct, g.L*xscale)
			if err != nil {
				return err
			}
			k := factor(e, fct)
			tol := math.Abs(k)*a.ref.scales.tol(fct) + b.ref.scales.tol(fct)
			for _, p := range samplePoints(xs) {
				if err := near(c, fmt.Sprintf("%v on %q at %v", fct, e.ID, p.x), fb.at(p.x*xscale, p.side), k*fa.at(p.x, p.side), tol); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func scaledBy(xs []float64, k float64) (out []float64) {
	for _, x := range xs {
		out = append(out, k*x)
	}
	return out
}

// reverseElem exchanges start and end of an element.
func reverseElem(s *Spec, e *Elem) {
	L := s.length(e)
	e.N0, e.N1 = e.N1, e.N0
	for i := range e.Hinges {
		e.Hinges[i].End = 1 - e.Hinges[i].End
	}
	for i := range e.Loads {
		l := &e.Loads[i]
		if l.Type == "dirac" {
			l.Pos = L - l.Pos
			if l.Pos < 0 || math.Abs(l.Pos) < 1e-12*L {
				l.Pos = 0
			}
		}
		if l.Kind == "Phiy" {
			continue
		}
		switch l.Type {
		case "linear":
			l.V0, l.V1 = -l.V1, -l.V0
		default:
			l.V0 = -l.V0
		}
	}
}

func reversedSign(fct string) float64 {
	switch fct {
	case "Ux", "Uz", "My":
		return -1
	}
	return 1
}

// work returns the work of the loads of one case (including reactions) on the displacements of another one, and the sum
// of absolute contributions.
func work(load, disp *outcome) (w, abs float64, err error) {
	add := func(v float64) { w += v; abs += math.Abs(v) }
	for _, k := range load.s.dofs() {
		add(load.R[k] * disp.U[k])
	}
	for _, n := range load.s.Neumann {
		add(n.V * disp.U[dofKey{n.Node, n.Dof}])
	}
	for i := range load.s.Elems {
		e := &load.s.Elems[i]
		gl, gd := load.ref.byID[e.ID], disp.ref.byID[e.ID]
		fs := map[string]*field{}
		for _, l := range e.Loads {
			f := fs[l.Kind]
			if f == nil {
				if f, err = getField(disp.r, e.ID, l.Kind, gl.L); err != nil {
					return 0, 0, err
				}
				fs[l.Kind] = f
			}
			if l.Type == "dirac" {
				side := -1
				if l.Pos < gl.L/2 {
					side = 1
				}
				add(l.V0 * f.at(l.Pos, side))
				continue
			}
			v1 := l.V1
			if l.Type == "constant" {
				v1 = l.V0
			}
			xs := gd.breakpoints()
			for k := 1; k < len(xs); k++ {
				gauss(xs[k-1], xs[k], func(x, wgt float64) {
					add(wgt * (l.V0 + (v1-l.V0)*x/gl.L) * f.at(x, 0))
				})
			}
		}
	}
	return w, abs, nil
}

// gauss visits the points of a quadrature rule that is exact up to degree 15.
func gauss(a, b float64, visit func(x, w float64)) {
	pts := [4]float64{0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}
	wts := [4]float64{0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763}
	m, h := (a+b)/2, (b-a)/2
	for i := range pts {
		visit(m-h*pts[i], wts[i]*h)
		visit(m+h*pts[i], wts[i]*h)
	}
}

// strainEnergy integrates N²/EA + M²/EI over all elements (twice the energy).
func strainEnergy(o *outcome) (float64, error) {
	sum := 0.0
	for i := range o.s.Elems {
		e := &o.s.Elems[i]
		g := o.ref.byID[e.ID]
		N, err := getField(o.r, e.ID, "Nx", g.L)
		if err != nil {
			return 0, err
		}
		var M *field
		if g.beam {
			if M, err = getField(o.r, e.ID, "My", g.L); err != nil {
				return 0, err
			}
		}
		xs := g.breakpoints()
		for k := 1; k < len(xs); k++ {
			gauss(xs[k-1], xs[k], func(x, w float64) {
				n := N.at(x, 0)
				sum += w * n * n / g.EA
				if M != nil {
					m := M.at(x, 0)
					sum += w * m * m / g.EI
				}
			})
		}
	}
	return sum, nil
}
