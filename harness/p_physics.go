package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
	"pgregory.net/rapid"
)

func init() {
	gs := func(o genOpts) func(t *rapid.T) *Spec {
		return func(t *rapid.T) *Spec { return genSpec(t, o) }
	}
	register("C01",
		sub("theory", "random stable structure; non-trivial: loaded", 24000, 400000, gs(genOpts{oddIDs: true}),
			withRef(comparePrimary)),
		sub("large", "random stable structure of up to 80 nodes; non-trivial: loaded", 320, 8000, genLarge, withRef(compareAll)),
		sub("contrast", "random stable structure with stiff and soft members; non-trivial: loaded", 8000, 200000, genContrast, withRef(compareAll)))
	register("C02",
		sub("statics", "random stable structure; non-trivial: loaded", 36000, 400000, gs(genOpts{oddIDs: true}), checkStatics),
		sub("theory", "random stable structure; non-trivial: loaded", 16000, 400000, gs(genOpts{oddIDs: true}), withRef(compareReactions)),
		sub("large", "random stable structure of up to 80 nodes; non-trivial: loaded", 320, 8000, genLarge, checkStatics))
	register("C03",
		sub("supports", "random stable structure with supports; non-trivial: non-zero Dirichlet or inclined support", 36000, 400000,
			gs(genOpts{oddIDs: true}), checkSupports),
		sub("large", "random stable structure of up to 80 nodes; non-trivial: non-zero Dirichlet or inclined support", 320, 8000, genLarge, checkSupports))
	register("C04",
		sub("equations", "random stable structure; non-trivial: element loads", 24000, 200000, gs(genOpts{oddIDs: true}), checkODE),
		sub("theory", "random stable structure; non-trivial: loaded", 8000, 200000, gs(genOpts{oddIDs: true}), withRef(compareFields)))
	register("C05",
		sub("ends", "random stable structure; non-trivial: loaded", 28000, 300000, gs(genOpts{oddIDs: true}), checkEnds))
}

func genLarge(t *rapid.T) *Spec {
	n, crowded := oneOf(t, 15, 25, 40), chance(t, 0.3)
	if crowded && chance(t, 0.3) {
		n = 80
	}
	return genSpec(t, genOpts{maxNodes: n, oddIDs: true, crowded: crowded})
}

func compareAll(c *Ctx, s *Spec, r deflect.ProblemResult, ref *Ref) error {
	for _, f := range []func(*Ctx, *Spec, deflect.ProblemResult, *Ref) error{comparePrimary, compareReactions, compareFields} {
		if err := f(c, s, r, ref); err != nil {
			return err
		}
	}
	return nil
}

func solved(c *Ctx, s *Spec) (*Built, deflect.ProblemResult, *Ref, error) {
	ref, err := solveRef(s)
	if err != nil {
		return nil, nil, nil, skipf("no reference solution")
	}
	classify(c, s)
	c.NonTrivial(s.loaded())
	b, r, err := solveSpec(s)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("stable problem refused: %w", err)
	}
	return b, r, ref, nil
}

func withRef(f func(*Ctx, *Spec, deflect.ProblemResult, *Ref) error) func(*Ctx, *Spec) error {
	return func(c *Ctx, s *Spec) error {
		_, r, ref, err := solved(c, s)
		if err != nil {
			return err
		}
		return f(c, s, r, ref)
	}
}

// parts returns the index of the connected part for each used node.
func (s *Spec) parts() map[string]int {
	part := map[string]int{}
	for changed, next := true, 0; changed; {
		changed = false
		for _, e := range s.Elems {
			a, oka := part[e.N0]
			b, okb := part[e.N1]
			switch {
			case !oka && !okb:
				part[e.N0], part[e.N1] = next, next
				next++
				changed = true
			case oka && !okb:
				part[e.N1] = a
				changed = true
			case okb && !oka:
				part[e.N0] = b
				changed = true
			case a != b:
				for n, p := range part {
					if p == b {
						part[n] = a
					}
				}
				changed = true
			}
		}
	}
	return part
}

// checkStatics: the reported reactions and the applied loads are in equilibrium (no reference needed).
func checkStatics(c *Ctx, s *Spec) error {
	_, r, ref, err := solved(c, s)
	if err != nil {
		return err
	}
	sc := ref.scales
	part := s.parts()
	type sum struct {
		f, m       [3]float64 // resultants about the origin of the part
		absF, absM float64
	}
	sums := map[int]*sum{}
	origin := map[int]*Node{}
	get := func(node string) (*sum, *Node, *Node) {
		p := part[node]
		n := s.node(node)
		if sums[p] == nil {
			sums[p] = &sum{}
			origin[p] = n
		}
		return sums[p], n, origin[p]
	}
	force := func(node string, at [3]float64, f [3]float64) {
		su, _, o := get(node)
		d := [3]float64{at[0] - o.X, at[1] - o.Y, at[2] - o.Z}
		for i := range f {
			su.f[i] += f[i]
			su.absF += math.Abs(f[i])
		}
		m := [3]float64{d[1]*f[2] - d[2]*f[1], d[2]*f[0] - d[0]*f[2], d[0]*f[1] - d[1]*f[0]}
		for i := range m {
			su.m[i] += m[i]
			su.absM += math.Abs(m[i])
		}
	}
	moment := func(node string, my float64) {
		su, _, _ := get(node)
		su.m[1] += my
		su.absM += math.Abs(my)
	}
	nodal := func(k dofKey, v float64) {
		n := s.node(k.Node)
		at := [3]float64{n.X, n.Y, n.Z}
		switch k.Dof {
		case "Ux":
			force(k.Node, at, [3]float64{v, 0, 0})
		case "Uy":
			force(k.Node, at, [3]float64{0, v, 0})
		case "Uz":
			force(k.Node, at, [3]float64{0, 0, v})
		case "Phiy":
			moment(k.Node, v)
		}
	}
	supported := map[dofKey]bool{}
	for _, d := range s.Dirichlet {
		supported[dofKey{d.Node, d.Dof}] = true
	}
	for _, l := range s.Links {
		supported[dofKey{l.Node, l.From}] = true
		supported[dofKey{l.Node, l.To}] = true
	}
	for _, k := range s.dofs() {
		v, err := reaction(r, k)
		if err != nil {
			return err
		}
		if !supported[k] {
			if err := near(c, fmt.Sprintf("reaction at unsupported %v", k), v, 0, sc.tolR(k.Dof)); err != nil {
				return err
			}
		}
		nodal(k, v)
	}
	// All list entries agree with that
	for _, v := range r.ReactionAll() {
		_ = v
	}
	for _, n := range s.Neumann {
		nodal(dofKey{n.Node, n.Dof}, n.V)
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		g := s.geomOf(e)
		n0 := s.node(e.N0)
		at := func(x float64) [3]float64 {
			return [3]float64{n0.X + g.ex[0]*x, n0.Y + g.ex[1]*x, n0.Z + g.ex[2]*x}
		}
		ez := [3]float64{g.s, 0, -g.c}
		dir := func(kind string, v float64) [3]float64 {
			d := g.ex
			if kind == "Uz" {
				d = ez
			}
			return [3]float64{d[0] * v, d[1] * v, d[2] * v}
		}
		for _, l := range e.Loads {
			switch {
			case l.Type == "dirac" && l.Kind == "Phiy":
				moment(e.N0, -l.V0) // local y = -Y
			case l.Type == "dirac":
				force(e.N0, at(l.Pos), dir(l.Kind, l.V0))
			case l.Type == "constant":
				force(e.N0, at(g.L/2), dir(l.Kind, l.V0*g.L))
			case l.Type == "linear":
				force(e.N0, at(g.L/2), dir(l.Kind, l.V0*g.L))
				force(e.N0, at(2*g.L/3), dir(l.Kind, (l.V1-l.V0)*g.L/2))
			}
		}
	}
	size := 0.0
	for _, a := range s.Nodes {
		for _, b := range s.Nodes {
			size = math.Max(size, math.Hypot(math.Hypot(a.X-b.X, a.Y-b.Y), a.Z-b.Z))
		}
	}
	nd := float64(len(s.Nodes))
	for p, su := range sums {
		is3 := false
		for _, e := range s.Elems {
			is3 = is3 || (e.Kind == "truss3d" && part[e.N0] == p)
		}
		for i := range su.f {
			if err := near(c, fmt.Sprintf("force resultant %v of part %v", "xyz"[i:i+1], p), su.f[i], 0,
				nd*sc.tolF()+1e-12*su.absF); err != nil {
				return err
			}
			// Moments about x and z vanish as well, unless 2d elements with out-of-plane offset
			// parts are involved, for which the 2d theory only knows moments about y.
			if i == 1 || allKind(s, part, p, "truss3d") {
				if err := near(c, fmt.Sprintf("moment resultant %v of part %v", "xyz"[i:i+1], p), su.m[i], 0,
					nd*(sc.tolM()+size*sc.tolF())+1e-12*su.absM); err != nil {
					return err
				}
			}
		}
		c.Label("3d part", is3)
	}
	c.Label("several parts", len(sums) > 1)
	return nil
}

func allKind(s *Spec, part map[string]int, p int, kind string) bool {
	for _, e := range s.Elems {
		if part[e.N0] == p && e.Kind != kind {
			return false
		}
	}
	return true
}

// checkSupports: prescribed values and inclined supports.
func checkSupports(c *Ctx, s *Spec) error {
	ref, err := solveRef(s)
	if err != nil {
		return skipf("no reference solution")
	}
	classify(c, s)
	_, r, err := solveSpec(s)
	if err != nil {
		return fmt.Errorf("stable problem refused: %w", err)
	}
	for _, d := range s.Dirichlet {
		v, err := primary(r, dofKey{d.Node, d.Dof})
		if err != nil {
			return err
		}
		if v != d.V {
			return fmt.Errorf("prescribed %v/%v: got %v, want exactly %v", d.Node, d.Dof, v, d.V)
		}
		c.NonTrivial(d.V != 0)
	}
	y := ref.sys
	for i, l := range s.Links {
		c.NonTrivial(true)
		to := y.linkTo[i]
		// In the (composed) turned axes, the 'to' displacement and the 'from' reaction vanish.
		u, f := 0.0, 0.0
		from := y.at[dofKey{l.Node, l.From}]
		for j, k := range y.dofs {
			if b := y.basis.At(j, to); b != 0 {
				v, err := primary(r, k)
				if err != nil {
					return err
				}
				u += b * v
			}
			if b := y.basis.At(j, from); b != 0 {
				v, err := reaction(r, k)
				if err != nil {
					return err
				}
				f += b * v
			}
		}
		if err := near(c, fmt.Sprintf("movement across inclined support %+v", l), u, 0, 1e-12*ref.scales.U); err != nil {
			return err
		}
		if err := near(c, fmt.Sprintf("reaction along inclined support %+v", l), f, 0, ref.scales.tolF()); err != nil {
			return err
		}
	}
	return nil
}

// checkODE: interpolated functions satisfy the differential equations and jump conditions.
func checkODE(c *Ctx, s *Spec) error {
	_, r, ref, err := solved(c, s)
	if err != nil {
		return err
	}
	sc := ref.scales
	for i := range s.Elems {
		e := &s.Elems[i]
		g := ref.byID[e.ID]
		c.NonTrivial(len(e.Loads) > 0)
		xs := g.breakpoints()
		if !wideEnough(xs, g.L) {
			continue
		}
		F := map[string]*field{}
		for _, fct := range kindFcts(e.Kind) {
			if F[fct], err = getField(r, e.ID, fct, g.L); err != nil {
				return err
			}
		}
		q := func(kind string, x float64) float64 {
			v := 0.0
			for _, l := range e.Loads {
				if l.Kind == kind && l.Type == "constant" {
					v += l.V0
				} else if l.Kind == kind && l.Type == "linear" {
					v += l.V0 + (l.V1-l.V0)*x/g.L
				}
			}
			return v
		}
		pts := samplePoints(xs)
		for _, p := range pts {
			x, sd := p.x, p.side
			eq := func(name string, lhs, rhs, scale float64) error {
				return near(c, fmt.Sprintf("%v on %q at %v", name, e.ID, x), lhs, rhs, 1e-8*scale)
			}
			if err := eq("N' = -qx", F["Nx"].diff(x, sd), -q("Ux", x), sc.F/g.L); err != nil {
				return err
			}
			if err := eq("u' = N/EA", F["Ux"].diff(x, sd), F["Nx"].at(x, sd)/g.EA, sc.F/g.EA); err != nil {
				return err
			}
			if !g.beam {
				continue
			}
			if err := eq("V' = -qz", F["Vz"].diff(x, sd), -q("Uz", x), sc.F/g.L); err != nil {
				return err
			}
			if err := eq("M' = V", F["My"].diff(x, sd), F["Vz"].at(x, sd), sc.F+sc.M/g.L); err != nil {
				return err
			}
			if err := eq("phi' = M/EI", F["Phiy"].diff(x, sd), F["My"].at(x, sd)/g.EI, (sc.M+sc.F*g.L)/g.EI); err != nil {
				return err
			}
			if err := eq("w' = -phi", F["Uz"].diff(x, sd), -F["Phiy"].at(x, sd), sc.Phi+sc.U/g.L); err != nil {
				return err
			}
		}
		// Jumps at inner breakpoints
		for k := 1; k+1 < len(xs); k++ {
			jump := map[string]float64{}
			for _, l := range e.Loads {
				if l.Type == "dirac" && math.Abs(l.Pos-xs[k]) <= 1e-9*g.L {
					jump[map[string]string{"Ux": "Nx", "Uz": "Vz", "Phiy": "My"}[l.Kind]] -= l.V0
				}
			}
			for fct, f := range F {
				scale := map[string]float64{"Nx": sc.F, "Vz": sc.F, "My": sc.M + sc.F*g.L, "Ux": sc.U + sc.F*g.L/g.EA,
					"Uz": sc.U + sc.Phi*g.L, "Phiy": sc.Phi + sc.M*g.L/g.EI}[fct]
				if err := near(c, fmt.Sprintf("jump of %v on %q at %v", fct, e.ID, xs[k]), f.at(xs[k], 1)-f.at(xs[k], -1),
					jump[fct], 1e-8*scale); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// checkEnds: element ends against nodal values and nodal balance.
func checkEnds(c *Ctx, s *Spec) error {
	_, r, ref, err := solved(c, s)
	if err != nil {
		return err
	}
	sc := ref.scales
	y := ref.sys
	u := make([]float64, len(y.dofs))
	bal := make([]float64, len(y.dofs))
	for i, k := range y.dofs {
		if u[i], err = primary(r, k); err != nil {
			return err
		}
		v, err := reaction(r, k)
		if err != nil {
			return err
		}
		bal[i] += v
	}
	for _, n := range s.Neumann {
		bal[y.at[dofKey{n.Node, n.Dof}]] += n.V
	}
	for gi := range y.geoms {
		g := &y.geoms[gi]
		names := [6]string{"Ux", "Uz", "Phiy", "Ux", "Uz", "Phiy"}
		forces := [6]string{"Nx", "Vz", "My", "Nx", "Vz", "My"}
		for k := 0; k < 6; k++ {
			if !g.beam && k%3 != 0 {
				continue
			}
			f, err := getField(r, g.e.ID, names[k], g.L)
			if err != nil {
				return err
			}
			ff, err := getField(r, g.e.ID, forces[k], g.L)
			if err != nil {
				return err
			}
			val, frc := f.start(), ff.start()
			sign := 1.0
			if k >= 3 {
				val, frc, sign = f.end(), ff.end(), -1
			}
			// The interpolation ends just inside of concentrated loads at the element's very ends.
			for _, l := range g.e.Loads {
				if l.Type != "dirac" || map[string]string{"Ux": "Nx", "Uz": "Vz", "Phiy": "My"}[l.Kind] != forces[k] {
					continue
				}
				if k < 3 && l.Pos == 0 {
					frc += l.V0
				} else if k >= 3 && math.Abs(l.Pos-g.L) <= 1e-12*g.L {
					frc -= l.V0
				}
			}
			disp := 0.0
			for _, cf := range y.endDisp(g, k) {
				disp += cf.v * u[cf.i]
				bal[cf.i] += sign * cf.v * frc
			}
			if g.released[k] {
				if err := near(c, fmt.Sprintf("%v at hinge %v of %q", forces[k], k/3, g.e.ID), frc, 0, sc.tol(forces[k])); err != nil {
					return err
				}
			} else if err := near(c, fmt.Sprintf("%v at end %v of %q", names[k], k/3, g.e.ID), val, disp, sc.tol(names[k])); err != nil {
				return err
			}
		}
	}
	for i, k := range y.dofs {
		if err := near(c, fmt.Sprintf("balance at %v", k), bal[i], 0, float64(len(y.geoms)+1)*sc.tolR(k.Dof)); err != nil {
			return err
		}
	}
	return nil
}

// genContrast draws structures in which stiff members are attached to soft ones.
func genContrast(t *rapid.T) *Spec {
	s := genSpec(t, genOpts{maxNodes: 5})
	d := oneOf(t, 3, 5, 6, 7)
	for i := range s.Elems {
		e := &s.Elems[i]
		for _, m := range s.Mats {
			if m.ID == e.Mat {
				m.ID = fmt.Sprintf("contrast%v", i)
				m.E *= math.Pow(10, float64(rapid.IntRange(-d, d).Draw(t, "decade")))
				e.Mat = m.ID
				s.Mats = append(s.Mats, m)
				break
			}
		}
	}
	return s
}
