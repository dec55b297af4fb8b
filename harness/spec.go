package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// Spec is a complete, serialisable description of a boundary value problem. It is converted to API
// calls, to JSON documents, and solved by the reference implementation.
type Spec struct {
	Nodes     []Node `json:"nodes"`
	Mats      []Mat  `json:"mats"`
	CSs       []CS   `json:"css"`
	Elems     []Elem `json:"elems"`
	Dirichlet []BC   `json:"dirichlet"`
	Links     []Link `json:"links,omitempty"`
	Neumann   []BC   `json:"neumann,omitempty"`
}

type Node struct {
	ID      string
	X, Y, Z float64
}

type Mat struct {
	ID         string
	E, Nu, Rho float64
}

// CS is a cross section: rectangle with P = b, h, roll, or constants with P = A, Iyy, Izz, Ixx, roll.
type CS struct {
	ID   string
	Kind string
	P    []float64
}

type Load struct {
	Kind string // dof: Ux, Uz, Phiy
	Type string // dirac, constant, linear
	V0   float64
	V1   float64 `json:",omitempty"`
	Pos  float64 `json:",omitempty"`
}

type Hinge struct {
	End int // 0 or 1
	Dof string
}

type Elem struct {
	ID     string
	Kind   string // truss2d, truss3d, frame2d
	N0, N1 string
	Mat    string
	CS     string
	Hinges []Hinge `json:",omitempty"`
	Loads  []Load  `json:",omitempty"`
}

type BC struct {
	Node string
	Dof  string
	V    float64
}

type Link struct {
	Node     string
	From, To string
	Angle    float64
}

var dofOf = map[string]deflect.Dof{
	"Ux": deflect.Ux, "Uz": deflect.Uz, "Uy": deflect.Uy,
	"Phiy": deflect.Phiy, "Phiz": deflect.Phiz, "Phix": deflect.Phix,
}

var fctOf = map[string]deflect.Fct{
	"Ux": deflect.FctUx, "Uz": deflect.FctUz, "Uy": deflect.FctUy,
	"Phiy": deflect.FctPhiy, "Phiz": deflect.FctPhiz, "Phix": deflect.FctPhix,
	"Nx": deflect.FctNx, "Vz": deflect.FctVz, "Vy": deflect.FctVy,
	"My": deflect.FctMy, "Mz": deflect.FctMz, "Mx": deflect.FctMx,
}

var allFcts = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix", "Nx", "Vz", "Vy", "My", "Mz", "Mx"}

func (s *Spec) clone() *Spec {
	data, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c Spec
	if err := json.Unmarshal(data, &c); err != nil {
		panic(err)
	}
	return &c
}

func (s *Spec) node(id string) *Node {
	for i := range s.Nodes {
		if s.Nodes[i].ID == id {
			return &s.Nodes[i]
		}
	}
	return nil
}

func (s *Spec) mat(id string) *Mat {
	for i := range s.Mats {
		if s.Mats[i].ID == id {
			return &s.Mats[i]
		}
	}
	return nil
}

func (s *Spec) cs(id string) *CS {
	for i := range s.CSs {
		if s.CSs[i].ID == id {
			return &s.CSs[i]
		}
	}
	return nil
}

func (s *Spec) elem(id string) *Elem {
	for i := range s.Elems {
		if s.Elems[i].ID == id {
			return &s.Elems[i]
		}
	}
	return nil
}

func (c *CS) A() float64 {
	if c.Kind == "rectangle" {
		return c.P[0] * c.P[1]
	}
	return c.P[0]
}

func (c *CS) Iyy() float64 {
	if c.Kind == "rectangle" {
		return c.P[0] * c.P[1] * c.P[1] * c.P[1] / 12
	}
	return c.P[1]
}

func (c *CS) Izz() float64 {
	if c.Kind == "rectangle" {
		return c.P[1] * c.P[0] * c.P[0] * c.P[0] / 12
	}
	return c.P[2]
}

func (s *Spec) length(e *Elem) float64 {
	a, b := s.node(e.N0), s.node(e.N1)
	return math.Sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))
}

func (s *Spec) ea(e *Elem) float64 { return s.mat(e.Mat).E * s.cs(e.CS).A() }
func (s *Spec) ei(e *Elem) float64 { return s.mat(e.Mat).E * s.cs(e.CS).Iyy() }

func (c *CS) build() (deflect.CrossSection, error) {
	switch c.Kind {
	case "rectangle":
		return deflect.NewRectangularCrossSection(c.P[0], c.P[1], c.P[2])
	case "constants":
		param := map[string]float64{
			"A": c.P[0], "Iyy": c.P[1], "Izz": c.P[2], "Ixx": c.P[3], "roll": c.P[4],
		}
		// The map is the caller's, who is free to use it for something else afterwards.
		defer clear(param)
		return deflect.NewConstantsCrossSections(param)
	}
	return nil, fmt.Errorf("unknown cross section kind %q", c.Kind)
}

func (l *Load) build() (deflect.NeumannElementBC, error) {
	switch l.Type {
	case "dirac":
		return deflect.NewElementConcentratedLoad(dofOf[l.Kind], l.Pos, l.V0)
	case "constant":
		return deflect.NewElementConstantLoad(dofOf[l.Kind], l.V0), nil
	case "linear":
		return deflect.NewElementLinearLoad(dofOf[l.Kind], l.V0, l.V1), nil
	}
	return nil, fmt.Errorf("unknown load type %q", l.Type)
}

// Built holds API objects for a Spec.
type Built struct {
	Spec    *Spec
	Problem *deflect.Problem
	Elems   map[string]deflect.Element
}

func newElement(kind, id string, n0, n1 *deflect.Node, m *deflect.Material,
	h map[deflect.Index]struct{},
) (deflect.Element, error) {
	switch kind {
	case "truss2d":
		return deflect.NewTruss2d(id, n0, n1, m, h)
	case "truss3d":
		return deflect.NewTruss3d(id, n0, n1, m, h)
	case "frame2d":
		return deflect.NewFrame2d(id, n0, n1, m, h)
	}
	return nil, fmt.Errorf("unknown element kind %q", kind)
}

// build creates fresh API objects. Errors are those reported by the code under test.
func (s *Spec) build() (*Built, error) {
	p := &deflect.Problem{}
	for _, n := range s.Nodes {
		p.Nodes = append(p.Nodes, deflect.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z})
	}
	nodes := map[string]*deflect.Node{}
	for i := range p.Nodes {
		nodes[p.Nodes[i].ID] = &p.Nodes[i]
	}
	css := map[string]deflect.CrossSection{}
	for i := range s.CSs {
		c, err := s.CSs[i].build()
		if err != nil {
			return nil, fmt.Errorf("cross section %q: %w", s.CSs[i].ID, err)
		}
		css[s.CSs[i].ID] = c
	}
	b := &Built{Spec: s, Problem: p, Elems: map[string]deflect.Element{}}
	// One map serves all elements: it is the caller's, and an element is created from what it holds
	// at that time.
	hinges := map[deflect.Index]struct{}{}
	defer clear(hinges)
	for i := range s.Elems {
		e := &s.Elems[i]
		m := s.mat(e.Mat)
		material := &deflect.Material{
			CrossSection:  css[e.CS],
			LinearElastic: deflect.LinearElastic{YoungsModulus: m.E, PoissonsRatio: m.Nu, Density: m.Rho},
		}
		clear(hinges)
		for _, h := range e.Hinges {
			id := e.N0
			if h.End == 1 {
				id = e.N1
			}
			hinges[deflect.Index{NodalID: id, Dof: dofOf[h.Dof]}] = struct{}{}
		}
		el, err := newElement(e.Kind, e.ID, nodes[e.N0], nodes[e.N1], material, hinges)
		if err != nil {
			return nil, fmt.Errorf("element %q: %w", e.ID, err)
		}
		for j := range e.Loads {
			l, err := e.Loads[j].build()
			if err != nil {
				return nil, fmt.Errorf("load on %q: %w", e.ID, err)
			}
			if !el.AddLoad(l) {
				return nil, fmt.Errorf("load %+v rejected by element %q", e.Loads[j], e.ID)
			}
		}
		b.Elems[e.ID] = el
		p.Elements = append(p.Elements, el)
	}
	for _, d := range s.Dirichlet {
		p.Dirichlet = append(p.Dirichlet, nodalValue(d))
	}
	for _, l := range s.Links {
		t, bc := deflect.NewInclinedSupport(
			deflect.Index{NodalID: l.Node, Dof: dofOf[l.From]},
			deflect.Index{NodalID: l.Node, Dof: dofOf[l.To]}, l.Angle)
		p.EqTransforms = append(p.EqTransforms, t)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	for _, n := range s.Neumann {
		p.Neumann = append(p.Neumann, nodalValue(n))
	}
	return b, nil
}

func nodalValue(b BC) deflect.NodalValue {
	return deflect.NodalValue{Index: deflect.Index{NodalID: b.Node, Dof: dofOf[b.Dof]}, Value: b.V}
}

func solveProblem(p *deflect.Problem) (deflect.ProblemResult, deflect.EqLayout, error) {
	idx, err := deflect.NewEqLayout(p)
	if err != nil {
		return nil, idx, fmt.Errorf("layout: %w", err)
	}
	r, err := deflect.NewLinearProblemSolver().Solve(p, idx, deflect.NewCholeskySolver())
	if err != nil {
		return nil, idx, fmt.Errorf("solve: %w", err)
	}
	if r == nil {
		return nil, idx, errors.New("solve returned neither result nor error")
	}
	return r, idx, nil
}

// solveSpec builds and solves with fresh objects.
func solveSpec(s *Spec) (*Built, deflect.ProblemResult, error) {
	b, err := s.build()
	if err != nil {
		return nil, nil, err
	}
	r, _, err := solveProblem(b.Problem)
	return b, r, err
}

// dofsOf returns the degrees of freedom each node has, by element connectivity, in a fixed order.
func (s *Spec) dofs() []dofKey {
	have := map[dofKey]bool{}
	for _, e := range s.Elems {
		for _, n := range []string{e.N0, e.N1} {
			for _, d := range kindDofs(e.Kind) {
				have[dofKey{n, d}] = true
			}
		}
	}
	var out []dofKey
	for _, n := range s.Nodes {
		for _, d := range []string{"Ux", "Uy", "Uz", "Phiy"} {
			if have[dofKey{n.ID, d}] {
				out = append(out, dofKey{n.ID, d})
			}
		}
	}
	return out
}

type dofKey struct{ Node, Dof string }

func (k dofKey) index() deflect.Index {
	return deflect.Index{NodalID: k.Node, Dof: dofOf[k.Dof]}
}

func kindDofs(kind string) []string {
	switch kind {
	case "truss2d":
		return []string{"Ux", "Uz"}
	case "truss3d":
		return []string{"Ux", "Uy", "Uz"}
	}
	return []string{"Ux", "Uz", "Phiy"}
}

func kindFcts(kind string) []string {
	if kind == "frame2d" {
		return []string{"Ux", "Uz", "Phiy", "Nx", "Vz", "My"}
	}
	return []string{"Ux", "Nx"}
}

// renameNodes replaces the IDs of nodes everywhere. Names that aren't listed are kept.
func (s *Spec) renameNodes(names map[string]string) {
	r := func(id *string) {
		if n, ok := names[*id]; ok {
			*id = n
		}
	}
	for i := range s.Nodes {
		r(&s.Nodes[i].ID)
	}
	for i := range s.Elems {
		r(&s.Elems[i].N0)
		r(&s.Elems[i].N1)
	}
	for i := range s.Dirichlet {
		r(&s.Dirichlet[i].Node)
	}
	for i := range s.Links {
		r(&s.Links[i].Node)
	}
	for i := range s.Neumann {
		r(&s.Neumann[i].Node)
	}
}
