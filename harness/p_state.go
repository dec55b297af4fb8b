package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

func init() {
	register("C11",
		sub("history", "solves of several problems that share objects, in random order; non-trivial: at least three solves with a shared solver", 12000, 150000, genHistory, checkHistory))
	register("C12",
		sub("loads", "sequence of adding and removing element loads; non-trivial: some load removed or rejected", 48000, 300000, genLoadHistory, checkLoadHistory))
	register("C16",
		sub("numbering", "structures with arbitrary names, solved by a strategy that tags its unknowns; non-trivial: always", 40000, 300000, genNumbering, checkNumbering),
		sub("references", "structure with one bad reference; non-trivial: always", 40000, 300000, genBadRef, checkBadRef))
	register("C23",
		sub("queries", "random query sequences; non-trivial: at least five queries", 24000, 200000, genQueries, checkQueries))
}

// Variant is a problem that shares objects with other variants of the same base structure.
type Variant struct {
	Base int
	Mode string
}

var variantModes = []string{"same", "same", "same", "ext", "otherLoads", "otherValues", "unsupported", "badLoad", "duplicate", "double", "noLinks", "short", "fixed0", "fixed0", "fixed1", "fixed1", "fixed2", "freed"}

// Modes after which nobody knows how well conditioned the problem is
var vague = []string{"short", "noLinks", "freed"}

type HistoryOp struct {
	Variant   int
	Solver    int // 0, 1: shared ones; 2: a fresh one
	Strategy  int // 0: shared; 1: fresh
	OldLayout bool
	Peek      int // how to look at older results afterwards
	// Boxed: the problem is assigned to an object that is used for different problems, one after the other
	Boxed bool `json:",omitempty"`
}

type History struct {
	Specs    []*Spec
	Variants []Variant
	Ops      []HistoryOp
}

func genHistory(t *rapid.T) *History {
	h := &History{}
	n := 1 + pick(t, 3)
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, 0.4) {
			h.Specs = append(h.Specs, perturb(t, h.Specs[pick(t, i)]))
			continue
		}
		h.Specs = append(h.Specs, genSpec(t, genOpts{maxNodes: oneOf(t, 2, 4, 5)}))
	}
	nv := 2 + pick(t, 4)
	for i := 0; i < nv; i++ {
		h.Variants = append(h.Variants, Variant{pick(t, n), variantModes[pick(t, len(variantModes))]})
	}
	no := 2 + pick(t, 8)
	for i := 0; i < no; i++ {
		h.Ops = append(h.Ops, HistoryOp{pick(t, nv), oneOf(t, 0, 0, 1, 2), pick(t, 2), chance(t, 0.5), pick(t, 4), chance(t, 0.25)})
	}
	return h
}

// perturb returns almost the same structure.
func perturb(t *rapid.T, s *Spec) *Spec {
	out := s.clone()
	eps := logBetween(t, 1e-9, 1e-3)
	factor := func(p float64) float64 {
		if chance(t, p) {
			return 1 + eps*signed(t)
		}
		return 1
	}
	what := pick(t, 4)
	if what == 0 || what == 3 {
		for i := range out.Nodes {
			out.Nodes[i].X *= factor(0.6)
			out.Nodes[i].Z *= factor(0.6)
		}
	}
	for i := range out.Elems {
		for k := range out.Elems[i].Loads {
			if l := &out.Elems[i].Loads[k]; l.Type == "dirac" {
				l.Pos = math.Min(l.Pos, out.length(&out.Elems[i]))
			}
		}
	}
	if what == 1 || what == 3 {
		for i := range out.Mats {
			out.Mats[i].E *= factor(0.8)
		}
		for i := range out.CSs {
			out.CSs[i].P[0] *= factor(0.5)
			out.CSs[i].P[1] *= factor(0.5)
		}
	}
	if what == 2 || what == 3 {
		for i := range out.Dirichlet {
			out.Dirichlet[i].V *= factor(0.5)
		}
		for i := range out.Neumann {
			out.Neumann[i].V *= factor(0.5)
		}
		for i := range out.Elems {
			for k := range out.Elems[i].Loads {
				out.Elems[i].Loads[k].V0 *= factor(0.5)
				out.Elems[i].Loads[k].V1 *= factor(0.5)
			}
		}
		for i := range out.Links {
			out.Links[i].Angle *= factor(0.5)
		}
	}
	return out
}

// variant derives a problem from built objects. The same function is used for shared and fresh objects.
func variant(b *Built, mode string) (*deflect.Problem, error) {
	p := &deflect.Problem{}
	*p = *b.Problem
	p.Elements = append([]deflect.Element{}, p.Elements...)
	p.Dirichlet = append([]deflect.NodalValue{}, p.Dirichlet...)
	p.Neumann = append([]deflect.NodalValue{}, p.Neumann...)
	p.EqTransforms = append([]deflect.Transformer{}, p.EqTransforms...)
	s := b.Spec
	switch mode {
	case "ext": // one more element
		e := s.Elems[0]
		var first *deflect.Node
		for i := range p.Nodes {
			if p.Nodes[i].ID == e.N0 {
				first = &p.Nodes[i]
			}
		}
		ext := &deflect.Node{ID: "0ext", X: first.X + 1.5*s.length(&e), Y: first.Y, Z: first.Z + 0.5*s.length(&e)}
		m := s.mat(e.Mat)
		cs, err := s.cs(e.CS).build()
		if err != nil {
			return nil, err
		}
		el, err := newElement(e.Kind, "ext", first, ext, &deflect.Material{CrossSection: cs,
			LinearElastic: deflect.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho}}, nil)
		if err != nil {
			return nil, err
		}
		p.Elements = append([]deflect.Element{el}, p.Elements...)
		for _, d := range kindDofs(e.Kind) {
			p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: dofKey{"0ext", d}.index()})
		}
	case "otherLoads":
		for i := range p.Neumann {
			p.Neumann[i].Value *= -2
		}
		k := s.dofs()[len(s.dofs())-1]
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: k.index(), Value: s.forceScale()})
	case "otherValues":
		for i := 0; i < len(s.Dirichlet); i++ {
			p.Dirichlet[i].Value += 1e-3
		}
	case "unsupported":
		p.Dirichlet = nil
		p.EqTransforms = nil
	case "badLoad":
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: deflect.Index{NodalID: "nowhere", Dof: deflect.Ux}, Value: 1})
	case "duplicate":
		p.Dirichlet = append(p.Dirichlet, p.Dirichlet[0])
	case "double": // the same elements act twice
		p.Elements = append(p.Elements, p.Elements...)
	case "noLinks":
		p.EqTransforms = nil
	case "fixed0", "fixed1", "fixed2": // further supports of a node in the same structure
		busy := map[dofKey]bool{}
		for _, d := range s.Dirichlet {
			busy[dofKey{d.Node, d.Dof}] = true
		}
		linked := map[string]bool{}
		for _, l := range s.Links {
			linked[l.Node] = true
		}
		at := s.Nodes[int(mode[5]-'0')%len(s.Nodes)].ID
		for _, k := range s.dofs() {
			if k.Node == at && !busy[k] && !linked[at] {
				p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: k.index()})
			}
		}
		// Loads where it is now supported remain legal
	case "freed": // the other way round
		if n := len(s.Dirichlet); n > 1 {
			p.Dirichlet = p.Dirichlet[:n-1]
		}
	case "short": // fewer elements
		if len(p.Elements) > 1 {
			p.Elements = p.Elements[:len(p.Elements)-1]
		}
	}
	return p, nil
}

// snapshot is everything a result reports.
type snapshot struct {
	primary, reaction map[deflect.Index]float64
	fields            map[string]deflect.PolySequence
	total, net        int
}

func takeSnapshot(r deflect.ProblemResult) *snapshot {
	s := &snapshot{primary: map[deflect.Index]float64{}, reaction: map[deflect.Index]float64{}, fields: map[string]deflect.PolySequence{}}
	for _, v := range r.PrimaryAll() {
		s.primary[v.Index] = v.Value
	}
	for _, v := range r.ReactionAll() {
		s.reaction[v.Index] = v.Value
	}
	for _, ip := range r.InterpolateAll(0) {
		s.fields[fmt.Sprintf("%q/%v", ip.Element, ip.Quantity)] = copyPoly(ip.Piecewise)
	}
	s.total, s.net = r.Dimension()
	return s
}

func copyPoly(p deflect.PolySequence) deflect.PolySequence {
	out := append(deflect.PolySequence{}, p...)
	for i := range out {
		out[i].Coeff = append([]float64{}, out[i].Coeff...)
	}
	return out
}

// close compares two snapshots; tol is relative to the largest value of each kind.
func (s *snapshot) close(o *snapshot, tol float64) error {
	if s.total != o.total || s.net != o.net {
		return fmt.Errorf("dimensions %v/%v, want %v/%v", s.total, s.net, o.total, o.net)
	}
	for _, m := range []struct {
		what string
		a, b map[deflect.Index]float64
	}{{"displacement", s.primary, o.primary}, {"reaction", s.reaction, o.reaction}} {
		if len(m.a) != len(m.b) {
			return fmt.Errorf("%v %vs, want %v", len(m.a), m.what, len(m.b))
		}
		scale := map[bool]float64{}
		for k, v := range m.b {
			rot := k.Dof >= deflect.Phiy
			scale[rot] = math.Max(scale[rot], math.Abs(v))
		}
		for k, v := range m.b {
			w, ok := m.a[k]
			if !ok {
				return fmt.Errorf("%v %v missing", m.what, k)
			}
			if w != v && !(math.Abs(w-v) <= tol*math.Max(scale[true], scale[false])) {
				return fmt.Errorf("%v %v is %v, want %v", m.what, k, w, v)
			}
		}
	}
	if len(s.fields) != len(o.fields) {
		return fmt.Errorf("%v interpolations, want %v", len(s.fields), len(o.fields))
	}
	scale := map[string]float64{}
	val := func(p deflect.PolySequence, f float64) float64 {
		x := p[0].X0 + f*(p[len(p)-1].XE-p[0].X0)
		for _, pc := range p {
			if x <= pc.XE {
				return horner(pc.Coeff, x)
			}
		}
		return horner(p[len(p)-1].Coeff, x)
	}
	pts := []float64{0, 0.013, 0.21, 0.39, 0.52, 0.71, 0.88, 0.991, 1}
	kind := func(k string) string { return k[strings.LastIndex(k, "/"):] }
	for k, p := range o.fields {
		for _, f := range pts {
			if len(p) > 0 {
				scale[kind(k)] = math.Max(scale[kind(k)], math.Abs(val(p, f)))
			}
		}
	}
	for k, p := range o.fields {
		q, ok := s.fields[k]
		if !ok || len(q) == 0 || len(p) == 0 {
			return fmt.Errorf("interpolation %v missing", k)
		}
		if tol == 0 {
			if !reflect.DeepEqual(p, q) {
				return fmt.Errorf("interpolation %v is %v, want %v", k, q, p)
			}
			continue
		}
		for _, f := range pts {
			if a, b := val(q, f), val(p, f); !(math.Abs(a-b) <= tol*scale[kind(k)]) {
				return fmt.Errorf("interpolation %v at %v is %v, want %v", k, f, a, b)
			}
		}
	}
	return nil
}

type retained struct {
	op   int
	r    deflect.ProblemResult
	snap *snapshot // what it reported before
	want *snapshot
	tol  float64
	same func() *snapshot // does it all again with fresh objects
	base *Spec            // a similar structure
	spec *Spec            // set if ref is
	ref  *Ref             // independent reference solution, if there is one
}

// nearly determines if the nodal values agree, up to rounding errors of a structure's solution.
func (s *snapshot) nearly(o *snapshot, spec *Spec) bool {
	ref, err := solveRef(spec)
	if err != nil {
		return true
	}
	for k, v := range o.primary {
		d := k.Dof.String()
		if !(math.Abs(s.primary[k]-v) <= 10*ref.scales.tol(d)) || !(math.Abs(s.reaction[k]-o.reaction[k]) <= 10*ref.scales.tolR(d)) {
			return false
		}
	}
	return true
}

// reproducible determines if a computation gives exactly the same results every time.
func reproducible(run func() *snapshot) bool {
	first := run()
	for i := 0; i < 30; i++ {
		if next := run(); first == nil || next == nil || next.close(first, 0) != nil {
			return false
		}
	}
	return true
}

func (re *retained) verify(now int) error {
	s := takeSnapshot(re.r)
	if re.snap != nil {
		if err := s.close(re.snap, 0); err != nil && s.close(re.snap, 1e-9) == nil && !reproducible(re.same) {
			return skipf("rounding errors differ from one query to the next")
		} else if err != nil {
			return fmt.Errorf("result of operation %v changed until operation %v: %w", re.op, now, err)
		}
	}
	re.snap = s
	// Tiny values that are only the rounding error of a cancellation agree, because the operations are the same ones.
	// If fresh objects don't always give exactly the same values, this doesn't hold.
	if err := s.close(re.want, re.tol); err != nil && s.nearly(re.want, re.base) && !reproducible(re.same) {
		return skipf("rounding errors differ from one run to the next")
	} else if err != nil {
		return fmt.Errorf("result of operation %v, queried after operation %v, differs from that of fresh objects: %w", re.op, now, err)
	}
	if re.ref == nil {
		return nil
	}
	c := &Ctx{}
	for _, compare := range []func(*Ctx, *Spec, deflect.ProblemResult, *Ref) error{comparePrimary, compareReactions, compareFields} {
		if err := compare(c, re.spec, re.r, re.ref); err != nil {
			return fmt.Errorf("result of operation %v, queried after operation %v, differs from the reference solution: %w", re.op, now, err)
		}
	}
	return nil
}

func checkHistory(c *Ctx, h *History) error {
	var bases []*Built
	for _, s := range h.Specs {
		b, err := s.build()
		if err != nil {
			return fmt.Errorf("not constructible: %w", err)
		}
		bases = append(bases, b)
	}
	var problems []*deflect.Problem
	for _, v := range h.Variants {
		p, err := variant(bases[v.Base], v.Mode)
		if err != nil {
			return err
		}
		problems = append(problems, p)
	}
	layouts := make([]*deflect.EqLayout, len(problems))
	solvers := []deflect.ProblemSolver{deflect.NewLinearProblemSolver(), deflect.NewLinearProblemSolver()}
	strategy := deflect.NewCholeskySolver()
	var kept []*retained
	var box deflect.Problem
	shared, failed := 0, false
	for i, op := range h.Ops {
		v := h.Variants[op.Variant]
		p := problems[op.Variant]
		// With fresh objects
		fb, err := h.Specs[v.Base].build()
		if err != nil {
			return err
		}
		fp, err := variant(fb, v.Mode)
		if err != nil {
			return err
		}
		want, _, wantErr := solveProblem(fp)
		// With used objects
		var solver deflect.ProblemSolver
		if op.Solver < 2 {
			solver = solvers[op.Solver]
			shared++
		} else {
			solver = deflect.NewLinearProblemSolver()
		}
		st := strategy
		if op.Strategy == 1 {
			st = deflect.NewCholeskySolver()
		}
		if op.Boxed {
			box = *p
			p = &box
		}
		before := *p
		nd, nn := append([]deflect.NodalValue{}, p.Dirichlet...), append([]deflect.NodalValue{}, p.Neumann...)
		nodes, els := append([]deflect.Node{}, p.Nodes...), append([]deflect.Element{}, p.Elements...)
		got, gotErr := func() (deflect.ProblemResult, error) {
			l := layouts[op.Variant]
			if l == nil || !op.OldLayout {
				fresh, err := deflect.NewEqLayout(p)
				if err != nil {
					return nil, err
				}
				l = &fresh
				if !op.Boxed {
					layouts[op.Variant] = l
				}
			} else {
				c.Label("layout used again", true)
			}
			return solver.Solve(p, *l, st)
		}()
		if !slices.Equal(p.Dirichlet, nd) || !slices.Equal(p.Neumann, nn) || !slices.Equal(p.Nodes, nodes) ||
			len(p.Elements) != len(els) || len(p.EqTransforms) != len(before.EqTransforms) {
			return fmt.Errorf("operation %v modified the problem", i)
		}
		for k := range els {
			if p.Elements[k] != els[k] {
				return fmt.Errorf("operation %v modified the problem's elements", i)
			}
		}
		if (wantErr == nil) != (gotErr == nil) {
			if slices.Contains(vague, v.Mode) {
				// Not necessarily clearly stable or unstable; rounding decides. The same rounding though.
				return fmt.Errorf("operation %v (%v): error %v, with fresh objects %v", i, v.Mode, gotErr, wantErr)
			}
			return fmt.Errorf("operation %v (%v): error %v, with fresh objects %v", i, v.Mode, gotErr, wantErr)
		}
		if gotErr != nil {
			failed = true
			c.Label("failing solve in between", i+1 < len(h.Ops))
			continue
		}
		_ = failed
		c.Label("mode "+v.Mode, true)
		tol := 1e-9
		if slices.Contains(vague, v.Mode) {
			tol = 1e-6
		}
		again := func() *snapshot {
			b, err := h.Specs[v.Base].build()
			if err != nil {
				return nil
			}
			p, err := variant(b, v.Mode)
			if err != nil {
				return nil
			}
			r, _, err := solveProblem(p)
			if err != nil {
				return nil
			}
			return takeSnapshot(r)
		}
		re := &retained{i, got, nil, takeSnapshot(want), tol, again, h.Specs[v.Base], nil, nil}
		if v.Mode == "same" {
			if ref, err := solveRef(h.Specs[v.Base]); err == nil {
				re.spec, re.ref = h.Specs[v.Base], ref
			}
			c.Label("compared with the reference solution", re.ref != nil)
		}
		if op.Boxed { // the problem won't exist any longer
			c.Label("same problem object with other content", true)
			if err := re.verify(i); err != nil {
				return err
			}
			continue
		}
		kept = append(kept, re)
		switch op.Peek {
		case 1:
			if err := re.verify(i); err != nil {
				return err
			}
		case 2:
			for _, k := range kept {
				if err := k.verify(i); err != nil {
					return err
				}
			}
		case 3:
			if err := kept[0].verify(i); err != nil {
				return err
			}
		}
	}
	c.NonTrivial(shared >= 3)
	for k := len(kept) - 1; k >= 0; k-- {
		if err := kept[k].verify(len(h.Ops)); err != nil {
			return err
		}
	}
	for k := range kept {
		if err := kept[k].verify(len(h.Ops)); err != nil {
			return err
		}
	}
	return nil
}

// LoadOp adds or removes a load of the pool.
type LoadOp struct {
	What string // add, remove, solve
	Elem int
	Load int
}

type LoadHistory struct {
	S    *Spec
	Pool []Load
	Ops  []LoadOp
}

func genLoadHistory(t *rapid.T) *LoadHistory {
	h := &LoadHistory{S: genSpec(t, genOpts{maxNodes: oneOf(t, 2, 3, 4), noElLoads: true, oddIDs: true, families: []string{"frame2d", "mix2d", "truss2d", "truss3d", "mix3d", "frame2d"}})}
	f := h.S.forceScale()
	np := 1 + few(t, 6, 14)
	many := chance(t, 0.1) // lots of loads on a single element
	for i := 0; i < np; i++ {
		e := &h.S.Elems[pick(t, len(h.S.Elems))]
		l := genElementLoad(t, e.Kind, h.S.length(e), f)
		switch pick(t, 8) {
		case 5:
			l.Kind = oneOf(t, "Uy", "Phiz", "Phix", "Phiy", "Uz")
		case 6:
			l.Kind = "Ux"
		case 7:
			if i > 0 {
				l = h.Pool[i-1] // equal, but another instance
			}
		}
		if l.Type == "dirac" && chance(t, 0.1) {
			l.Pos *= 3
		}
		h.Pool = append(h.Pool, l)
	}
	no := 1 + pick(t, 12)
	if many {
		el := pick(t, len(h.S.Elems))
		for i := 5 + few(t, 30, 120); i > 0; i-- {
			h.Ops = append(h.Ops, LoadOp{"add", el, pick(t, np)})
		}
		for i := 1 + pick(t, 4); i > 0; i-- {
			h.Ops = append(h.Ops, LoadOp{oneOf(t, "remove", "remove", "remove", "add"), el, pick(t, np)})
		}
	}
	for i := 0; i < no; i++ {
		h.Ops = append(h.Ops, LoadOp{oneOf(t, "add", "add", "add", "remove", "remove", "solve", "foreign"), pick(t, len(h.S.Elems)), pick(t, np)})
	}
	return h
}

// loadSupported is the model of what AddLoad accepts.
func loadSupported(kind string, l Load, L float64) bool {
	if l.Type == "dirac" && l.Pos > L*(1+1e-9) {
		return false
	}
	if l.Kind == "Ux" {
		return true
	}
	if kind != "frame2d" {
		return false
	}
	return l.Kind == "Uz" || l.Kind == "Phiy" && l.Type == "dirac"
}

func checkLoadHistory(c *Ctx, h *LoadHistory) error {
	b, err := h.S.build()
	if err != nil {
		return err
	}
	for _, e := range h.S.Elems {
		for _, l := range h.Pool {
			if L := h.S.length(&e); l.Type == "dirac" && l.Pos > L && l.Pos < L*(1+1e-6) {
				return skipf("position neither on the element nor clearly beyond")
			}
		}
	}
	var pool []deflect.NeumannElementBC
	for _, l := range h.Pool {
		o, err := l.build()
		if err != nil {
			return err
		}
		pool = append(pool, o)
	}
	model := make([][]int, len(h.S.Elems))
	compare := func(step int) error {
		s := h.S.clone()
		for i := range s.Elems {
			for _, k := range model[i] {
				s.Elems[i].Loads = append(s.Elems[i].Loads, h.Pool[k])
			}
		}
		ref, err := solveRef(s)
		if err != nil {
			return skipf("no reference solution")
		}
		fresh, rf, err := solveSpec(s)
		if err != nil {
			return fmt.Errorf("fresh structure refused: %w", err)
		}
		_ = fresh
		r, _, err := solveProblem(b.Problem)
		if err != nil {
			return fmt.Errorf("after %v operations: %w", step, err)
		}
		fo, err := outcomeOf(s, rf, ref)
		if err != nil {
			return err
		}
		o, err := outcomeOf(s, r, ref)
		if err != nil {
			return err
		}
		if err := compareNodal(c, o, fo.U, fo.R, twice(ref.scales.tol), twice(ref.scales.tolR)); err != nil {
			return fmt.Errorf("after %v operations: %w", step, err)
		}
		if err := compareSameFields(c, fo, o, func(*Elem, string) float64 { return 1 }, 1); err != nil {
			return fmt.Errorf("after %v operations: %w", step, err)
		}
		return nil
	}
	for i, op := range h.Ops {
		e := &h.S.Elems[op.Elem]
		el := b.Elems[e.ID]
		switch op.What {
		case "add":
			ok := el.AddLoad(pool[op.Load])
			want := loadSupported(e.Kind, h.Pool[op.Load], h.S.length(e))
			if ok != want {
				return fmt.Errorf("operation %v: adding %+v to %v (length %v) returned %v, want %v", i, h.Pool[op.Load], e.Kind, h.S.length(e), ok, want)
			}
			if ok {
				for _, k := range model[op.Elem] {
					c.Label("added twice", k == op.Load)
				}
				model[op.Elem] = append(model[op.Elem], op.Load)
			} else {
				c.Label("rejected", true)
				c.NonTrivial(true)
			}
		case "remove":
			el.RemoveLoad(pool[op.Load])
			var keep []int
			for _, k := range model[op.Elem] {
				if k != op.Load {
					keep = append(keep, k)
				}
			}
			c.NonTrivial(len(keep) < len(model[op.Elem]))
			c.Label("removed", len(keep) < len(model[op.Elem]))
			c.Label("removed several", len(keep) < len(model[op.Elem])-1)
			c.Label("removed nothing", len(keep) == len(model[op.Elem]))
			model[op.Elem] = keep
		case "solve":
			if err := compare(i); err != nil {
				return err
			}
		case "foreign":
			for _, x := range []any{nil, "load", 1.5, struct{}{}} {
				if el.AddLoad(x) {
					return fmt.Errorf("operation %v: something that isn't a load (%v) was accepted", i, x)
				}
				el.RemoveLoad(x)
			}
		}
	}
	return compare(len(h.Ops))
}

func outcomeOf(s *Spec, r deflect.ProblemResult, ref *Ref) (*outcome, error) {
	o := &outcome{s, r, ref, map[dofKey]float64{}, map[dofKey]float64{}}
	var err error
	for _, k := range s.dofs() {
		if o.U[k], err = primary(r, k); err != nil {
			return nil, err
		}
		if o.R[k], err = reaction(r, k); err != nil {
			return nil, err
		}
	}
	return o, nil
}

// Numbering ...
func genNumbering(t *rapid.T) *Spec {
	s := genGeometry(t, oneOf(t, allFamilies...), &genOpts{oddIDs: true, maxNodes: oneOf(t, 7, 7, 7, 7, 7, 7, 7, 7, 7, oneOf(t, 40, 40, 40, 40, 110)), noHinges: chance(t, 0.6)})
	p := oneOf(t, 0.2, 0.5, 0.8)
	dofs := s.dofs()
	for _, d := range dofs {
		if chance(t, p) {
			s.Dirichlet = append(s.Dirichlet, BC{d.Node, d.Dof, -1 - float64(len(s.Dirichlet))})
		}
	}
	if len(s.Dirichlet) == 0 {
		s.Dirichlet = append(s.Dirichlet, BC{dofs[0].Node, dofs[0].Dof, -1})
	}
	if len(s.Dirichlet) == len(dofs) {
		s.Dirichlet = s.Dirichlet[1:]
	}
	permute(t, s.Dirichlet)
	permute(t, s.Elems)
	for _, d := range dofs {
		if chance(t, 0.3) {
			s.Neumann = append(s.Neumann, BC{d.Node, d.Dof, signed(t)})
		}
	}
	return s
}

// tagging is an equation solver that returns recognisable numbers instead of solving anything.
type tagging struct {
	calls, dim, nb, nx int
	a                  *mat.SymDense
}

func (g *tagging) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	g.calls++
	g.dim, g.nb, g.nx = a.SymmetricDim(), b.Len(), x.Len()
	g.a = mat.NewSymDense(g.dim, nil)
	g.a.CopySym(a)
	for i := 0; i < x.Len(); i++ {
		x.SetVec(i, float64(1000+i))
	}
	return nil
}

func checkNumbering(c *Ctx, s *Spec) error {
	c.NonTrivial(true)
	b, err := s.build()
	if err != nil {
		return err
	}
	idx, err := deflect.NewEqLayout(b.Problem)
	if err != nil {
		return fmt.Errorf("layout refused: %w", err)
	}
	g := &tagging{}
	r, err := deflect.NewLinearProblemSolver().Solve(b.Problem, idx, g)
	if err != nil {
		return fmt.Errorf("solve: %w", err)
	}
	dofs := s.dofs()
	net := len(dofs) - len(s.Dirichlet)
	if g.calls != 1 || g.dim != net || g.nb != net || g.nx != net {
		return fmt.Errorf("strategy called %v times with dimensions %v, %v, %v; want once with %v", g.calls, g.dim, g.nb, g.nx, net)
	}
	if t, n := r.Dimension(); t != len(dofs) || n != net {
		return fmt.Errorf("dimension is %v, %v; want %v, %v", t, n, len(dofs), net)
	}
	for name, all := range map[string][]deflect.NodalValue{"primary": r.PrimaryAll(), "reaction": r.ReactionAll()} {
		if len(all) != len(dofs) {
			return fmt.Errorf("%v %v values, want %v", len(all), name, len(dofs))
		}
		seen := map[deflect.Index]bool{}
		for _, v := range all {
			if seen[v.Index] {
				return fmt.Errorf("%v value of %v listed twice", name, v.Index)
			}
			seen[v.Index] = true
		}
		for _, k := range dofs {
			if !seen[k.index()] {
				return fmt.Errorf("%v value of %v not listed", name, k)
			}
		}
	}
	// Values of the strategy and prescribed values arrive exactly once each
	used := map[float64]dofKey{}
	at := map[dofKey]int{}
	for _, k := range dofs {
		v, err := primary(r, k)
		if err != nil {
			return err
		}
		if o, ok := used[v]; ok {
			return fmt.Errorf("%v and %v share the same equation (value %v)", o, k, v)
		}
		used[v] = k
		if v >= 1000 {
			at[k] = int(v) - 1000
		}
		for _, d := range s.Dirichlet {
			if d.Node == k.Node && d.Dof == k.Dof && d.V != v {
				return fmt.Errorf("prescribed %v is %v, want %v", k, v, d.V)
			}
		}
		if !s.isFixed(k) && (v < 1000 || v >= float64(1000+net)) {
			return fmt.Errorf("free %v has value %v", k, v)
		}
	}
	// The coefficients belong to the right equations: compare with an independent assembly
	for _, e := range s.Elems {
		if len(e.Hinges) > 0 {
			return nil
		}
	}
	y, err := newSystem(s)
	if err != nil {
		return err
	}
	c.Label("coefficients compared", true)
	K := y.stiffness()
	for _, k := range dofs {
		for _, l := range dofs {
			i, iok := at[k]
			j, jok := at[l]
			if !iok || !jok {
				continue
			}
			want := K.At(y.at[k], y.at[l])
			scale := math.Max(math.Sqrt(math.Abs(K.At(y.at[k], y.at[k])*K.At(y.at[l], y.at[l]))), math.Abs(want))
			if math.Abs(g.a.At(i, j)-want) > 1e-8*scale+1e-9*maxAbsSym(K) {
				return fmt.Errorf("stiffness %v-%v is %v, want %v", k, l, g.a.At(i, j), want)
			}
		}
	}
	return nil
}

func maxAbsSym(k *mat.SymDense) float64 {
	m := 0.0
	for i := 0; i < k.SymmetricDim(); i++ {
		m = math.Max(m, math.Abs(k.At(i, i)))
	}
	return m
}

// BadRef is a structure plus a defect.
type BadRef struct {
	S    *Spec
	Kind string
	Pick float64
	Dof  string
	More int // further references of the same kind that are just as bad
}

var badRefKinds = []string{"duplicate", "duplicate value", "link duplicate", "unknown node", "unused dof", "load node", "load dof",
	"link from", "link to", "element", "none"}

// value is that of a load nobody can bear.
func (br *BadRef) value() float64 {
	return []float64{1, 0, -1e-300, 1e-9, -3, 1e12}[int(br.Pick*1e6)%6]
}

func genBadRef(t *rapid.T) *BadRef {
	return &BadRef{genSpec(t, genOpts{oddIDs: true}), badRefKinds[pick(t, len(badRefKinds))], frac(t), oneOf(t, "Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"), oneOf(t, 0, 0, pick(t, 20), pick(t, 300))}
}

func checkBadRef(c *Ctx, br *BadRef) error {
	s := br.S
	c.NonTrivial(true)
	b, err := s.build()
	if err != nil {
		return err
	}
	p := b.Problem
	dofs := s.dofs()
	have := map[deflect.Index]bool{}
	for _, k := range dofs {
		have[k.index()] = true
	}
	node := dofs[int(br.Pick*float64(len(dofs)))].Node
	unused := deflect.Index{NodalID: node, Dof: dofOf[br.Dof]}
	if have[unused] {
		unused.Dof = deflect.Phix
	}
	unknown := deflect.Index{NodalID: node + "?", Dof: dofOf[br.Dof]}
	layoutBad, solveBad := false, false
	var layoutOf *deflect.Problem
	switch br.Kind {
	case "duplicate", "duplicate value":
		d := p.Dirichlet[int(br.Pick*float64(len(p.Dirichlet)))]
		if br.Kind == "duplicate value" {
			d.Value += 1
		}
		p.Dirichlet = append(p.Dirichlet, d)
		layoutBad = true
	case "link duplicate":
		if len(s.Links) == 0 {
			return skipf("no link")
		}
		l := s.Links[0]
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: dofKey{l.Node, l.To}.index()})
		layoutBad = true
	case "unknown node":
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: unknown})
		layoutBad = true
	case "unused dof":
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: unused})
		layoutBad = true
	case "load node":
		for i := 0; i <= br.More; i++ {
			p.Neumann = append(p.Neumann, deflect.NodalValue{Index: unknown, Value: br.value()})
			unknown.NodalID += "?"
		}
		solveBad = true
	case "load dof":
		for i := 0; i <= br.More; i++ {
			p.Neumann = append([]deflect.NodalValue{{Index: unused, Value: br.value()}}, p.Neumann...)
		}
		solveBad = true
	case "link from", "link to":
		// The other index is one that's free
		free := deflect.Index{}
		for _, k := range dofs {
			if !s.isFixed(k) && !s.linked(k) {
				free = k.index()
			}
		}
		if free.NodalID == "" {
			return skipf("nothing free")
		}
		y, err := newSystem(s)
		if err != nil {
			return err
		}
		if br.Kind == "link from" && len(y.freeColumns()) < 2 {
			return skipf("the error would be that everything is fixed")
		}
		from, to := unused, free
		if br.Pick < 0.5 {
			from = unknown
		}
		if br.Kind == "link to" {
			from, to = to, from
		}
		tr, bc := deflect.NewInclinedSupport(from, to, br.Pick)
		p.EqTransforms = append(p.EqTransforms, tr)
		p.Dirichlet = append(p.Dirichlet, bc)
		layoutBad, solveBad = br.Kind == "link to", true
	case "element":
		n0 := &deflect.Node{ID: "other 0", X: 1}
		n1 := &deflect.Node{ID: "other 1", X: 2}
		cs, err := s.CSs[0].build()
		if err != nil {
			return err
		}
		q := *p
		layoutOf = &q
		p.Elements = append([]deflect.Element{}, p.Elements...)
		for i := 0; i <= br.More; i++ {
			kind := "truss2d"
			if br.More > 0 {
				kind = []string{"truss2d", "truss3d", "frame2d"}[i%3]
			}
			el, err := newElement(kind, fmt.Sprint("foreign", i), n0, n1,
				&deflect.Material{CrossSection: cs, LinearElastic: deflect.LinearElastic{YoungsModulus: 1}}, nil)
			if err != nil {
				return err
			}
			p.Elements = append(p.Elements, el)
		}
		solveBad = true
	case "none":
	}
	c.Label(br.Kind, true)
	if layoutOf == nil {
		layoutOf = p
	}
	idx, err := deflect.NewEqLayout(layoutOf)
	if layoutBad {
		if err == nil {
			return fmt.Errorf("%v: not reported by the layout", br.Kind)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%v: layout refused: %w", br.Kind, err)
	}
	r, err := deflect.NewLinearProblemSolver().Solve(p, idx, deflect.NewCholeskySolver())
	if solveBad && err == nil {
		return fmt.Errorf("%v: solved in spite of a bad reference: %v", br.Kind, r.PrimaryAll())
	}
	if !solveBad && err != nil {
		return fmt.Errorf("%v: refused: %w", br.Kind, err)
	}
	return nil
}

// Query is a question to a result.
type Query struct {
	What string
	Node string
	Dof  string
	Elem string
	Fct  string
	Tol  float64
}

type Queries struct {
	S  *Spec
	Qs []Query
}

func genQueries(t *rapid.T) *Queries {
	q := &Queries{S: genSpec(t, genOpts{oddIDs: true})}
	n := 3 + pick(t, 14)
	for i := 0; i < n; i++ {
		x := Query{What: oneOf(t, "primary", "reaction", "primary", "reaction", "primaryAll", "reactionAll", "interpolate", "interpolate", "interpolateAll", "dimension")}
		x.Node = q.S.Nodes[pick(t, len(q.S.Nodes))].ID
		x.Dof = oneOf(t, "Ux", "Uz", "Phiy", "Uy", "Phix", "Phiz")
		x.Elem = q.S.Elems[pick(t, len(q.S.Elems))].ID
		x.Fct = allFcts[pick(t, len(allFcts))]
		x.Tol = oneOf(t, 0, 0, 1e-9, 1e-4, 1e-2, 50)
		if e := q.S.elem(x.Elem); chance(t, 0.3) && len(e.Loads) > 0 { // a tolerance that matters
			l := e.Loads[pick(t, len(e.Loads))]
			x.Tol = math.Abs(l.V0) * oneOf(t, 0.3, 0.6, 1.1, 2)
		}
		if chance(t, 0.12) {
			x.Node += "'"
			x.Elem += "'"
		}
		q.Qs = append(q.Qs, x)
	}
	return q
}

func checkQueries(c *Ctx, q *Queries) error {
	s := q.S
	c.NonTrivial(len(q.Qs) >= 5)
	classify(c, s)
	_, r, err := solveSpec(s)
	if err != nil {
		return fmt.Errorf("stable problem refused: %w", err)
	}
	dofs := s.dofs()
	have := map[deflect.Index]bool{}
	for _, k := range dofs {
		have[k.index()] = true
	}
	// volatile tells if fresh objects don't always give exactly the same values.
	volatile := sync.OnceValue(func() bool {
		return !reproducible(func() *snapshot {
			_, r, err := solveSpec(s)
			if err != nil {
				return nil
			}
			return takeSnapshot(r)
		})
	})
	values := map[string]map[deflect.Index]float64{"primary": {}, "reaction": {}}
	polys := map[string]deflect.PolySequence{}
	same := func(kind string, v deflect.NodalValue) error {
		if math.IsNaN(v.Value) {
			return fmt.Errorf("%v of %v is not a number", kind, v.Index)
		}
		old, ok := values[kind][v.Index]
		if ok && old != v.Value && !(math.Abs(old-v.Value) <= 1e-9*math.Abs(old) && volatile()) {
			return fmt.Errorf("%v of %v was %v, now %v", kind, v.Index, old, v.Value)
		}
		values[kind][v.Index] = v.Value
		return nil
	}
	samePoly := func(elem string, fct deflect.Fct, tol float64, p deflect.PolySequence) error {
		key := fmt.Sprintf("%q/%v/%v", elem, fct, tol)
		if old, ok := polys[key]; ok && !reflect.DeepEqual(old, copyPoly(p)) && !(samePieces(old, p, 1e-9) && volatile()) {
			return fmt.Errorf("interpolation %v was %v, now %v", key, old, p)
		}
		polys[key] = copyPoly(p)
		return nil
	}
	all := func(kind string, vs []deflect.NodalValue) error {
		if len(vs) != len(dofs) {
			return fmt.Errorf("%v values for %v degrees of freedom", len(vs), len(dofs))
		}
		seen := map[deflect.Index]bool{}
		for _, v := range vs {
			if !have[v.Index] || seen[v.Index] {
				return fmt.Errorf("%v listed twice or unknown", v.Index)
			}
			seen[v.Index] = true
			if err := same(kind, v); err != nil {
				return err
			}
		}
		return nil
	}
	// twin answers an interpolation query with an object that has not been asked for anything before.
	twin := func(elem string, fct deflect.Fct, tol float64, p deflect.PolySequence) error {
		var answers []deflect.PolySequence
		for i := 0; i < 3; i++ {
			_, r, err := solveSpec(s)
			if err != nil {
				return fmt.Errorf("solved only once: %w", err)
			}
			ip, err := r.Interpolate(elem, fct, tol)
			if err != nil {
				return fmt.Errorf("a fresh result answers %q/%v with %w", elem, fct, err)
			}
			answers = append(answers, copyPoly(ip.Piecewise))
			if samePieces(p, answers[i], 1e-9) {
				return nil
			}
		}
		if samePieces(answers[0], answers[1], 1e-9) && samePieces(answers[0], answers[2], 1e-9) {
			return fmt.Errorf("interpolation %q/%v with tolerance %v is %v, but %v when asked for first", elem, fct, tol, p, answers[0])
		}
		return nil
	}
	run := func(x Query) error {
		idx := deflect.Index{NodalID: x.Node, Dof: dofOf[x.Dof]}
		switch x.What {
		case "primary", "reaction":
			var v deflect.NodalValue
			var err error
			if x.What == "primary" {
				v, err = r.Primary(idx)
			} else {
				v, err = r.Reaction(idx)
			}
			if have[idx] != (err == nil) {
				return fmt.Errorf("error is %v", err)
			}
			c.Label("bad query", err != nil)
			if err == nil {
				if v.Index != idx {
					return fmt.Errorf("answer is labelled %v", v.Index)
				}
				return same(x.What, v)
			}
		case "primaryAll":
			return all("primary", r.PrimaryAll())
		case "reactionAll":
			return all("reaction", r.ReactionAll())
		case "dimension":
			if t, n := r.Dimension(); t != len(dofs) || n != len(dofs)-len(s.Dirichlet)-len(s.Links) {
				return fmt.Errorf("dimension is %v, %v", t, n)
			}
		case "interpolate":
			ip, err := r.Interpolate(x.Elem, fctOf[x.Fct], x.Tol)
			e := s.elem(x.Elem)
			if e == nil {
				c.Label("bad query", true)
				if err == nil {
					return errors.New("unknown element not reported")
				}
				return nil
			}
			if !contains(kindFcts(e.Kind), x.Fct) {
				if len(ip.Piecewise) != 0 {
					return fmt.Errorf("a %v can't have function %v", e.Kind, ip.Piecewise)
				}
				return nil
			}
			if err != nil {
				return err
			}
			if ip.Element != x.Elem || ip.Quantity != fctOf[x.Fct] || len(ip.Piecewise) == 0 {
				return fmt.Errorf("answer is %+v", ip)
			}
			if err := tolerated(r, e, s.length(e), x.Fct, x.Tol, ip.Piecewise); err != nil {
				return err
			}
			if err := canonical(ip.Piecewise, x.Tol); err != nil {
				return err
			}
			if err := twin(x.Elem, ip.Quantity, x.Tol, ip.Piecewise); err != nil {
				return err
			}
			return samePoly(x.Elem, ip.Quantity, x.Tol, ip.Piecewise)
		case "interpolateAll":
			want := map[string]bool{}
			for _, e := range s.Elems {
				for _, f := range kindFcts(e.Kind) {
					want[fmt.Sprintf("%q/%v", e.ID, fctOf[f])] = true
				}
			}
			for _, ip := range r.InterpolateAll(x.Tol) {
				key := fmt.Sprintf("%q/%v", ip.Element, ip.Quantity)
				if !want[key] {
					return fmt.Errorf("%v listed twice or not supported", key)
				}
				delete(want, key)
				if len(ip.Piecewise) == 0 {
					return fmt.Errorf("%v is empty", key)
				}
				if err := samePoly(ip.Element, ip.Quantity, x.Tol, ip.Piecewise); err != nil {
					return err
				}
				if err := canonical(ip.Piecewise, x.Tol); err != nil {
					return fmt.Errorf("%v: %w", key, err)
				}
			}
			if len(want) > 0 {
				return fmt.Errorf("missing in bulk interpolation: %v", sortedKeys(want))
			}
		}
		return nil
	}
	for i, x := range q.Qs {
		if err := run(x); err != nil {
			return fmt.Errorf("query %v %+v: %w", i, x, err)
		}
	}
	// At the end, ask for everything and compare with what was answered
	for _, x := range []Query{{What: "interpolateAll"}, {What: "interpolateAll", Tol: 1e-9}, {What: "interpolateAll", Tol: 1e-4}, {What: "primaryAll"}, {What: "reactionAll"}, {What: "dimension"}} {
		if err := run(x); err != nil {
			return fmt.Errorf("finally %v: %w", x.What, err)
		}
	}
	for _, k := range dofs {
		for _, w := range []string{"primary", "reaction"} {
			if err := run(Query{What: w, Node: k.Node, Dof: k.Dof}); err != nil {
				return fmt.Errorf("finally %v of %v: %w", w, k, err)
			}
		}
	}
	for i := range s.Elems {
		for _, f := range kindFcts(s.Elems[i].Kind) {
			if err := run(Query{What: "interpolate", Elem: s.Elems[i].ID, Fct: f}); err != nil {
				return fmt.Errorf("finally %v of %q: %w", f, s.Elems[i].ID, err)
			}
		}
	}
	return nil
}

// tolerated checks that a zero tolerance changes an interpolation by not more than it accounts for.
func tolerated(r deflect.ProblemResult, e *Elem, L float64, fct string, tol float64, p deflect.PolySequence) error {
	exact, err := getField(r, e.ID, fct, L)
	if err != nil {
		return err
	}
	f := &field{fct, p, L}
	if err := f.tiling("interpolation with tolerance"); err != nil {
		return err
	}
	for _, x := range []float64{0.001, 0.13, 0.37, 0.5, 0.77, 0.93, 0.999} {
		x *= L
		bound, pw := 0.0, 1.0
		for k := 0; k < 6; k++ {
			bound += pw
			pw *= x
		}
		pc := exact.piece(x, 1)
		// Trimming drops coefficients up to the tolerance, merging pieces replaces coefficients by ones that
		// deviate by up to the tolerance.
		if d := math.Abs(f.at(x, 1) - exact.at(x, 1)); d > 2.1*tol*(bound+coefScale(pc.Coeff, x))+1e-9*coefScale(pc.Coeff, x)+1e-12 && tol < 0.1 {
			near := false
			for _, q := range exact.pieces {
				near = near || math.Abs(q.X0-x) < 1e-5*L || math.Abs(q.XE-x) < 1e-5*L
			}
			if !near {
				return fmt.Errorf("value at %v changes by %v, tolerance %v", x, d, tol)
			}
		}
	}
	return nil
}

// canonical checks that there is nothing left to trim and nothing to merge with the given tolerance.
func canonical(p deflect.PolySequence, tol float64) error {
	q := copyPoly(p)
	q.TrimTrailingZeros(tol)
	if q = q.CompactIdentical(tol); !reflect.DeepEqual(copyPoly(p), q) {
		return fmt.Errorf("interpolation %v isn't canonical for the tolerance %v, but could be %v", p, tol, q)
	}
	return nil
}

// samePieces compares piecewise polynomials, coefficients only up to a deviation relative to the function.
func samePieces(a, b deflect.PolySequence, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	scale := 0.0
	for _, ps := range []deflect.PolySequence{a, b} {
		for _, p := range ps {
			scale = math.Max(scale, coefScale(p.Coeff, math.Max(math.Abs(p.X0), math.Abs(p.XE))))
		}
	}
	for i := range a {
		p, q := a[i], b[i]
		if len(p.Coeff) != len(q.Coeff) || math.Abs(p.X0-q.X0)+math.Abs(p.XE-q.XE) > tol*(math.Abs(p.XE)+1e-3) {
			return false
		}
		x := 1.0
		for k := range p.Coeff {
			if !(math.Abs(p.Coeff[k]-q.Coeff[k])*x <= tol*scale) {
				return false
			}
			x *= math.Abs(p.XE)
		}
	}
	return true
}

func contains(xs []string, x string) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
