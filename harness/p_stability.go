package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// genLoose draws structures most of which can move: supports are drawn without repair, hinges are frequent, and sometimes
// everything is placed on a line or members are replaced by trusses.
func genLoose(t *rapid.T) *Spec {
	o := &genOpts{maxNodes: 6}
	fam := oneOf(t, allFamilies...)
	s := genGeometry(t, fam, o)
	switch pick(t, 5) {
	case 1: // collinear
		phi := genAngle(t)
		if d := math.Remainder(phi, math.Pi/2); math.Abs(d) < 0.02 { // nearly but not entirely axis-aligned isn't judged
			phi -= d
		}
		for i := range s.Nodes {
			d := float64(i)*1.3 + 0.5*frac(t)
			s.Nodes[i].X, s.Nodes[i].Z = d*snap(math.Cos(phi)), d*snap(math.Sin(phi))
			if fam == "mix3d" || fam == "truss3d" {
				s.Nodes[i].Y = 0
			}
		}
	case 2: // coplanar in general position
		if fam == "truss3d" {
			a, b := signed(t), signed(t)
			before := append([]Node{}, s.Nodes...)
			for i := range s.Nodes {
				s.Nodes[i].Y = a*s.Nodes[i].X + b*s.Nodes[i].Z
			}
			for i := range s.Elems {
				if !(s.length(&s.Elems[i]) > 0.01) { // two nodes differ only in Y
					s.Nodes = before
					break
				}
			}
		}
	}
	ph := oneOf(t, 0, 0.15, 0.5)
	for i := range s.Elems {
		if len(s.Elems[i].Hinges) == 0 && chance(t, ph) {
			s.Elems[i].Hinges = genHinges(t, s.Elems[i].Kind)
		}
	}
	dofs := s.dofs()
	if chance(t, 0.3) {
		d := dofs[pick(t, len(dofs))]
		if d.Dof != "Phiy" {
			f := d.Dof
			g := "Ux"
			if f == "Ux" {
				g = "Uz"
			}
			s.Links = append(s.Links, Link{d.Node, f, g, genAngle(t)})
		}
	}
	p := oneOf(t, 0.25, 0.5, 0.75, 0.1, 0.9)
	for _, d := range dofs {
		if chance(t, p) && !s.linked(d) {
			v := 0.0
			if chance(t, 0.2) {
				v = 0.01 * signed(t)
			}
			s.Dirichlet = append(s.Dirichlet, BC{d.Node, d.Dof, v})
		}
	}
	genLoads(t, s, o)
	return s
}

func init() {
	register("C13",
		sub("mechanism", "structures with random supports; non-trivial: a movement without deformation exists", 80000, 800000,
			genLoose, checkMechanism),
		sub("extreme", "structures with numbers of any magnitude; non-trivial: always", 16000, 100000, genExtreme, checkExtreme))
}

// nearlyDegenerate reports if little of a node's stiffness is left in the direction an inclined support leaves free, but
// not none. Stability then depends on a difference of large numbers, or on a tiny angle, and isn't judged.
func nearlyDegenerate(y *system) bool {
	if len(y.spec.Links) == 0 {
		return false
	}
	if q := y.linkLoss(); q > 1e-14 && q < 0.02 {
		return true
	}
	for _, l := range y.spec.Links {
		if d := math.Abs(math.Remainder(l.Angle, math.Pi/2)); d > 1e-12 && d < 0.02 {
			return true
		}
	}
	return false
}

// stability classifies by the equilibrated free stiffness of the reference.
func stability(s *Spec) (movable, stable bool, err error) {
	y, err := newSystem(s)
	if err != nil {
		return false, false, err
	}
	if len(y.freeColumns()) == 0 {
		return false, false, nil
	}
	if nearlyDegenerate(y) || y.vagueDiagonal() {
		return false, false, nil
	}
	cond, _ := y.condition()
	return math.IsInf(cond, 1) || cond > 1e14, cond < 1e8 && y.rawCondition() < maxRawCond, nil
}

func checkMechanism(c *Ctx, s *Spec) error {
	movable, stable, err := stability(s)
	if err != nil {
		return skipf("not constructible")
	}
	classify(c, s)
	c.NonTrivial(movable)
	_, r, err := solveSpec(s)
	y, _ := newSystem(s)
	none := len(s.Dirichlet)+len(s.Links) == 0
	all := len(y.freeColumns()) == 0
	c.Label("movable", movable)
	c.Label("stable", stable)
	c.Label("nothing prescribed", none)
	c.Label("everything prescribed", all)
	if (none || all || movable) && err == nil {
		cond, _ := y.condition()
		return fmt.Errorf("structure without any/with all supports or with a mechanism is solved (cond %v): %v", cond, r.PrimaryAll())
	}
	if stable && !all && err != nil {
		return fmt.Errorf("stable structure refused: %w", err)
	}
	if err != nil {
		return nil
	}
	return checkFinite(s, r)
}

// snap turns rounding errors of zero into zero.
func snap(v float64) float64 {
	if math.Abs(v) < 1e-12 {
		return 0
	}
	return v
}
