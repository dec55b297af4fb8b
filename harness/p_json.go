package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lubgr/deflect/deflect"
	"pgregory.net/rapid"
)

func init() {
	register("C14",
		sub("spelling", "document with at least one element whose names or values are given by a shorthand, or several documents' freedoms used", 28000, 600000,
			genDoc, checkDoc))
	register("C15",
		sub("defects", "every case holds exactly one defect in a problem that is solvable without it", 24000, 900000, genDefect, checkDefect),
		sub("structure", "mutated document that is still valid JSON", 24000, 900000, genStructural, checkRobust),
		sub("bytes", "mutated bytes, differing from the original document", 24000, 900000, genBytes, checkRobust),
		sub("surplus", "valid document with something else before or after it", 6000, 150000, genSurplus, checkSurplus),
		sub("truncated", "proper prefix of a document", 8000, 200000, genTruncated, checkTruncated))
}

// Doc is a structure and a document that describes it.
type Doc struct {
	Spec   *Spec
	Doc    string
	Before string `json:",omitempty"` // a defective document that is parsed first
}

func genDocSpec(t *rapid.T) *Spec {
	o := genOpts{oddIDs: true, maxNodes: 5}
	s := genGeometry(t, oneOf(t, allFamilies...), &o)
	reduceCatalogue(t, s)
	renameForInference(t, s)
	if chance(t, 0.2) {
		misleadingNames(t, s)
	}
	if chance(t, 0.1) { // names of elements and nodes are independent of each other
		k := pick(t, len(s.Elems))
		id := s.Nodes[pick(t, len(s.Nodes))].ID
		free := true
		for i := range s.Elems {
			free = free && s.Elems[i].ID != id
		}
		if free {
			s.Elems[k].ID = id
		}
	}
	genSupports(t, s, &o)
	genLoads(t, s, &o)
	if chance(t, 0.1) { // other units
		u := Units{s, logBetween(t, 1e-6, 1e6), logBetween(t, 1e-6, 1e6), logBetween(t, 1e-5, 1e6), logBetween(t, 1e-6, 1e6)}
		s = u.apply()
	}
	return s
}

func genDoc(t *rapid.T) *Doc {
	s := genDocSpec(t)
	tree := s.tree(t)
	d := &Doc{Spec: s, Doc: render(t, tree)}
	if chance(t, 0.05) {
		d.Before = genDefect(t).Doc
	}
	return d
}

func sums(vs []deflect.NodalValue) map[deflect.Index]float64 {
	m := map[deflect.Index]float64{}
	for _, v := range vs {
		m[v.Index] += v.Value
	}
	return m
}

// sameValues compares boundary values as sets, the order is of no importance.
func sameValues(what string, got, want []deflect.NodalValue, tol float64) error {
	a, b := sums(got), sums(want)
	for k, v := range b {
		g, ok := a[k]
		if !ok && v != 0 {
			return fmt.Errorf("%v %v is missing", what, k)
		}
		if !(math.Abs(g-v) <= tol*math.Abs(v)) {
			return fmt.Errorf("%v %v is %v, want %v", what, k, g, v)
		}
	}
	for k, v := range a {
		if _, ok := b[k]; !ok && v != 0 {
			return fmt.Errorf("unexpected %v %v: %v", what, k, v)
		}
	}
	return nil
}

func checkDoc(c *Ctx, d *Doc) error {
	if d.Before != "" {
		c.Label("after a defective document", true)
		_, _ = runDocument([]byte(d.Before))
	}
	return compareDoc(c, d.Spec, d.Doc)
}

// compareDoc parses a document and compares everything with the structure it describes.
func compareDoc(c *Ctx, s *Spec, doc string) error {
	classify(c, s)
	shorthand := false
	for i := range s.Elems {
		e := &s.Elems[i]
		shorthand = shorthand || inferable(e)
		c.Label("inferable nodes", inferable(e))
	}
	c.Label("single material", len(s.Mats) == 1)
	c.Label("single section", len(s.CSs) == 1)
	c.Label("escapes", strings.Contains(doc, `\u`))
	c.NonTrivial(shorthand || len(s.Mats) == 1 || len(s.CSs) == 1 || strings.Contains(doc, `\u`) || len(s.Links) > 0)
	a, err := solveOutcome(s)
	if err != nil {
		return err
	}
	want, err := s.build()
	if err != nil {
		return err
	}
	data := []byte(doc)
	p, err := deflect.ProblemFromJSON(data)
	if err != nil {
		return fmt.Errorf("valid document refused: %w\n%v", err, doc)
	}
	if string(data) != doc {
		return fmt.Errorf("parsing modified the input")
	}
	if err := sameProblem(&p, want.Problem); err != nil {
		return fmt.Errorf("%w\n%v", err, doc)
	}
	r, _, err := solveProblem(&p)
	if err != nil {
		return fmt.Errorf("problem from valid document refused: %w\n%v", err, doc)
	}
	b, err := outcomeOf(s, r, a.ref)
	if err != nil {
		return fmt.Errorf("%w\n%v", err, doc)
	}
	if ta, na := a.r.Dimension(); true {
		if tb, nb := r.Dimension(); ta != tb || na != nb {
			return fmt.Errorf("dimensions %v/%v, want %v/%v", tb, nb, ta, na)
		}
	}
	tol, tolR := sumTol(a, b)
	if err := compareNodal(c, b, a.U, a.R, tol, tolR); err != nil {
		return fmt.Errorf("%w\n%v", err, doc)
	}
	one := func(*Elem, string) float64 { return 1 }
	if err := compareSameFields(c, a, b, one, 1); err != nil {
		return fmt.Errorf("%w\n%v", err, doc)
	}
	return nil
}

func sameProblem(p, want *deflect.Problem) error {
	nodes := map[string]deflect.Node{}
	for _, n := range p.Nodes {
		if _, twice := nodes[n.ID]; twice {
			return fmt.Errorf("node %q appears twice", n.ID)
		}
		nodes[n.ID] = n
	}
	for _, n := range want.Nodes {
		if nodes[n.ID] != n {
			return fmt.Errorf("node %q is %v, want %v", n.ID, nodes[n.ID], n)
		}
	}
	if len(p.Nodes) != len(want.Nodes) {
		return fmt.Errorf("%v nodes, want %v", len(p.Nodes), len(want.Nodes))
	}
	ids := func(es []deflect.Element) []string {
		var out []string
		for _, e := range es {
			out = append(out, e.ID())
		}
		sort.Strings(out)
		return out
	}
	if g, w := ids(p.Elements), ids(want.Elements); fmt.Sprint(g) != fmt.Sprint(w) {
		return fmt.Errorf("elements %q, want %q", g, w)
	}
	if err := sameValues("Dirichlet value", p.Dirichlet, want.Dirichlet, 0); err != nil {
		return err
	}
	if len(p.Dirichlet) != len(want.Dirichlet) {
		return fmt.Errorf("%v Dirichlet values, want %v", len(p.Dirichlet), len(want.Dirichlet))
	}
	if err := sameValues("nodal load", p.Neumann, want.Neumann, 1e-14); err != nil {
		return err
	}
	if len(p.EqTransforms) != len(want.EqTransforms) {
		return fmt.Errorf("%v inclined supports, want %v", len(p.EqTransforms), len(want.EqTransforms))
	}
	return nil
}

// Defect is a document with one defect.
type Defect struct {
	Spec   *Spec
	What   string
	Doc    string
	Intact string // the same document without the defect
}

type defect struct {
	name  string
	apply func(t *rapid.T, s *Spec, doc *jobj) bool
}

func anyElem(t *rapid.T, s *Spec, kinds ...string) *Elem {
	var es []*Elem
	for i := range s.Elems {
		if len(kinds) == 0 || contains(kinds, s.Elems[i].Kind) {
			es = append(es, &s.Elems[i])
		}
	}
	if len(es) == 0 {
		return nil
	}
	return es[pick(t, len(es))]
}

func anyKey(t *rapid.T, o *jobj) string {
	if o == nil || len(o.pairs) == 0 {
		return ""
	}
	return o.pairs[pick(t, len(o.pairs))].key
}

func elemObj(doc *jobj, e *Elem) *jobj { return doc.sub("elements").sub(e.ID) }

func unconnected(s *Spec) []BC {
	have := map[dofKey]bool{}
	for _, k := range s.dofs() {
		have[k] = true
	}
	var out []BC
	for _, n := range s.Nodes {
		for _, d := range []string{"Ux", "Uy", "Uz", "Phix", "Phiy", "Phiz"} {
			if !have[dofKey{n.ID, d}] {
				out = append(out, BC{Node: n.ID, Dof: d})
			}
		}
	}
	return out
}

// nowhere lists degrees of freedom at nodes that don't exist.
func nowhere(s *Spec, dof string) (out []BC) {
	id := s.Nodes[0].ID
	for _, n := range []string{"nowhere", id + " ", " " + id, strings.ToUpper(id)} {
		if s.node(n) == nil && s.elem(n) == nil {
			out = append(out, BC{Node: n, Dof: dof})
		}
	}
	return out
}

func load(kind, degree string, values, position []any) *jobj {
	o := (&jobj{}).set("kind", kind).set("degree", degree)
	if values != nil {
		o.set("values", values)
	}
	if position != nil {
		o.set("position", position)
	}
	return o
}

var badDofs = []string{"ux", "Uxx", "", "U", "Phi", "phiy", "Ux ", "X", "Fq", "Ur", "ü"}

var defects = []defect{
	{"unknown element kind", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := elemObj(d, anyElem(t, s))
		if chance(t, 0.25) {
			e.del("kind")
		} else {
			e.set("kind", oneOf(t, "frame3d", "beam", "", "truss", "shell", "2d", "frame2dx", "rectangle"))
		}
		return true
	}},
	{"element connected to unknown node", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		nodes := []any{e.N0, e.N1}
		stray := oneOf(t, "nowhere", "", "AA", e.N0+" ", "elsewhere")
		if s.node(stray) != nil {
			return false
		}
		nodes[pick(t, 2)] = stray
		elemObj(d, e).set("nodes", nodes)
		return true
	}},
	{"wrong number of nodes", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		all := []any{e.N0, e.N1, e.N0, e.N1}
		elemObj(d, e).set("nodes", all[:oneOf(t, 1, 3, 4)])
		return true
	}},
	{"nodes can't be inferred", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		r := []rune(e.ID)
		if len(r) == 2 && s.node(string(r[0])) != nil && s.node(string(r[1])) != nil {
			return false
		}
		o := elemObj(d, e)
		if chance(t, 0.5) {
			o.del("nodes")
		} else {
			o.set("nodes", []any{})
		}
		return true
	}},
	{"zero length", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		if chance(t, 0.5) {
			elemObj(d, e).set("nodes", []any{e.N1, e.N1})
			elemObj(d, e).del("hinges")
		} else {
			n := s.node(e.N0)
			d.sub("nodes").set(e.N1, nums(n.X, n.Y, n.Z))
		}
		return true
	}},
	{"element without a name", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		o := elemObj(d, e)
		o.set("nodes", []any{e.N0, e.N1})
		d.sub("elements").del(e.ID)
		d.sub("elements").set("", o)
		if ld := d.sub("neumann").get(e.ID); ld != nil && s.node(e.ID) == nil {
			d.sub("neumann").del(e.ID)
			d.sub("neumann").set("", ld)
		}
		return true
	}},
	{"unknown material", func(t *rapid.T, s *Spec, d *jobj) bool {
		id := oneOf(t, "none", " ", "M0", "c0", s.Mats[0].ID+" ", " "+s.Mats[0].ID, strings.ToUpper(s.Mats[0].ID))
		for _, m := range s.Mats {
			if m.ID == id {
				return false
			}
		}
		elemObj(d, anyElem(t, s)).set("material", id)
		return true
	}},
	{"unknown section", func(t *rapid.T, s *Spec, d *jobj) bool {
		id := oneOf(t, "none", " ", "C0", "m0", s.CSs[0].ID+" ", " "+s.CSs[0].ID, strings.ToUpper(s.CSs[0].ID))
		for _, c := range s.CSs {
			if c.ID == id {
				return false
			}
		}
		elemObj(d, anyElem(t, s)).set("cs", id)
		return true
	}},
	{"ambiguous material", func(t *rapid.T, s *Spec, d *jobj) bool {
		o := elemObj(d, anyElem(t, s))
		if len(s.Mats) < 2 {
			m := d.sub("material")
			m.set("another", m.pairs[0].val)
		}
		if o.del("material"); chance(t, 0.3) {
			o.set("material", "")
		}
		return true
	}},
	{"ambiguous section", func(t *rapid.T, s *Spec, d *jobj) bool {
		o := elemObj(d, anyElem(t, s))
		if len(s.CSs) < 2 {
			m := d.sub("crosssection")
			m.set("another", m.pairs[0].val)
		}
		if o.del("cs"); chance(t, 0.3) {
			o.set("cs", "")
		}
		return true
	}},
	{"nothing of a kind", func(t *rapid.T, s *Spec, d *jobj) bool {
		key := oneOf(t, "material", "crosssection", "nodes", "elements")
		switch pick(t, 3) {
		case 0:
			d.del(key)
		case 1:
			d.set(key, &jobj{})
		case 2:
			d.set(key, nil)
		}
		if key == "elements" && chance(t, 0.5) {
			d.del("neumann")
		}
		return true
	}},
	{"incomplete material", func(t *rapid.T, s *Spec, d *jobj) bool {
		m := d.sub("material").sub(s.Mats[pick(t, len(s.Mats))].ID)
		switch pick(t, 3) {
		case 0:
			m.del("parameter")
		case 1:
			m.set("parameter", &jobj{})
		case 2:
			m.sub("parameter").del(oneOf(t, "E", "nu", "rho"))
		}
		return true
	}},
	{"incomplete section", func(t *rapid.T, s *Spec, d *jobj) bool {
		i := pick(t, len(s.CSs))
		m := d.sub("crosssection").sub(s.CSs[i].ID)
		switch pick(t, 3) {
		case 0:
			m.del("parameter")
		case 1:
			m.set("parameter", &jobj{})
		case 2:
			if s.CSs[i].Kind == "rectangle" {
				m.sub("parameter").del(oneOf(t, "b", "h"))
			} else {
				m.sub("parameter").del(oneOf(t, "A", "Iyy", "Izz"))
			}
		}
		return true
	}},
	{"section of impossible size", func(t *rapid.T, s *Spec, d *jobj) bool {
		i := pick(t, len(s.CSs))
		m := d.sub("crosssection").sub(s.CSs[i].ID).sub("parameter")
		key := oneOf(t, "b", "h")
		if s.CSs[i].Kind != "rectangle" {
			key = oneOf(t, "A", "Iyy", "Izz")
		}
		if chance(t, 0.2) {
			m.set("roll", -between(t, 1e-3, 3))
		} else {
			v, _ := m.get(key).(float64)
			m.set(key, oneOf[any](t, 0.0, -v, -1.0, -1e-12, jraw("-0")))
		}
		return true
	}},
	{"unknown kind of section", func(t *rapid.T, s *Spec, d *jobj) bool {
		m := d.sub("crosssection").sub(s.CSs[pick(t, len(s.CSs))].ID)
		if chance(t, 0.25) {
			m.del("kind")
		} else {
			m.set("kind", oneOf(t, "circle", "", "rect", "constant", "linelast", "Generic"))
		}
		return true
	}},
	{"unknown degree of freedom in Dirichlet", func(t *rapid.T, s *Spec, d *jobj) bool {
		n := s.Nodes[pick(t, len(s.Nodes))].ID
		d.sub("dirichlet").appendTo(n, (&jobj{}).set(oneOf(t, append([]string{"Fx", "qz", "My"}, badDofs...)...), oneOf(t, 0.0, 1)))
		return true
	}},
	{"unknown degree of freedom in nodal load", func(t *rapid.T, s *Spec, d *jobj) bool {
		n := s.Nodes[pick(t, len(s.Nodes))].ID
		d.sub("neumann").appendTo(n, (&jobj{}).set(oneOf(t, append([]string{"Ux", "Phiy", "fx"}, badDofs...)...), oneOf(t, 0.0, 1)))
		return true
	}},
	{"unknown degree of freedom of hinge", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		elemObj(d, e).sub("hinges").appendTo(e.N0, oneOf(t, append([]string{"Fx", "My"}, badDofs...)...))
		return true
	}},
	{"unknown degree of freedom of inclined support", func(t *rapid.T, s *Spec, d *jobj) bool {
		n := s.Nodes[pick(t, len(s.Nodes))].ID
		o := (&jobj{}).set("from", "Ux").set("to", "Uz").set("angle", 0.3)
		key := oneOf(t, "from", "to")
		if chance(t, 0.2) {
			o.del(key)
		} else {
			o.set(key, oneOf(t, append([]string{"Fx", "Phiy"}, badDofs...)...))
		}
		d.sub("links").appendTo(n, o)
		return true
	}},
	{"inclined support from and to the same", func(t *rapid.T, s *Spec, d *jobj) bool {
		k := s.dofs()[pick(t, len(s.dofs()))]
		if k.Dof == "Phiy" {
			k.Dof = "Ux"
		}
		d.sub("links").appendTo(k.Node, (&jobj{}).set("from", k.Dof).set("to", k.Dof).set("angle", genAngle(t)))
		return true
	}},
	{"load on unknown element", func(t *rapid.T, s *Spec, d *jobj) bool {
		id := oneOf(t, "nowhere", s.Nodes[0].ID, s.Elems[0].ID+" ", "")
		if s.elem(id) != nil {
			return false
		}
		d.sub("neumann").appendTo(id, oneOf(t, load("qx", "constant", nums(1), nil), load("Fx", "dirac", nums(1), nums(0.1)),
			load("qx", "linear", nums(1, 2), nil), load("qx", "constant", nums(0), nil)))
		return true
	}},
	{"load the element can't bear", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		kinds := []string{"y", "z"}
		rot := []string{"x", "y", "z"}
		if e.Kind == "frame2d" {
			kinds, rot = []string{"y"}, []string{"x", "z"}
		}
		v := oneOf(t, 1.0, -3, 0)
		var l *jobj
		switch pick(t, 6) {
		case 0:
			l = load("q"+oneOf(t, kinds...), "constant", nums(v), nil)
		case 1:
			l = load("q"+oneOf(t, kinds...), "linear", nums(v, 1), nil)
		case 2:
			l = load("F"+oneOf(t, kinds...), "dirac", nums(v), nums(0))
		case 3:
			l = load("M"+oneOf(t, rot...), "dirac", nums(v), nums(0))
		case 4:
			l = load("m"+oneOf(t, "x", "y", "z"), "constant", nums(v), nil)
		case 5:
			l = load("m"+oneOf(t, "x", "y", "z"), "linear", nums(v, 2), nil)
		}
		d.sub("neumann").appendTo(e.ID, l)
		return true
	}},
	{"malformed element load", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		var l *jobj
		many := func(min int) []any {
			var v []float64
			for i := min + pick(t, 8); i > 0; i-- {
				v = append(v, between(t, 0, 0.1))
			}
			return nums(v...)
		}
		switch pick(t, 16) {
		case 12:
			l = load("Fx", "dirac", many(2), many(1))
		case 13:
			l = load("Fx", "dirac", many(1), many(2))
		case 14:
			l = load("qx", "constant", many(2), nil)
		case 15:
			l = load("qx", "linear", many(3), nil)
		case 0:
			l = load("qx", "constant", nil, nil)
		case 1:
			l = load("qx", "constant", nums(1, 2), nil)
		case 2:
			l = load("qx", "linear", nums(1), nil)
		case 3:
			l = load("qx", "linear", nums(1, 2, 3), nil)
		case 4:
			l = load("Fx", "dirac", nums(1), nil)
		case 5:
			l = load("Fx", "dirac", nums(1), nums(0.1, 0.2))
		case 6:
			l = load("Fx", "dirac", nums(1, 2), nums(0.1))
		case 7:
			l = load("Fx", "dirac", nil, nums(0.1))
		case 8:
			l = load("qx", oneOf(t, "quadratic", "", "Constant", "dirac2", "cubic"), nums(1), nil)
		case 9:
			l = load(oneOf(t, append([]string{"Ux", "Phiy"}, badDofs...)...), "constant", nums(1), nil)
		case 10:
			l = load("qx", "constant", nums(1), nil)
			l.del("degree")
		case 11:
			l = load("qx", "constant", nums(1), nil)
			l.del("kind")
		}
		d.sub("neumann").appendTo(e.ID, l)
		return true
	}},
	{"load outside of the element", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		l := s.length(e)
		kind := "Fx"
		if e.Kind == "frame2d" {
			kind = oneOf(t, "Fz", "Fx", "My")
		}
		pos := oneOf(t, l*1.001, l*2, -l*0.001, -1, 1e9, -1e-9*l)
		d.sub("neumann").appendTo(e.ID, load(kind, "dirac", nums(1), nums(pos)))
		return true
	}},
	{"hinge at foreign node", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		id := oneOf(t, "nowhere", "", s.Nodes[0].ID, s.Nodes[len(s.Nodes)-1].ID)
		if id == e.N0 || id == e.N1 {
			return false
		}
		elemObj(d, e).sub("hinges").appendTo(id, "Ux")
		return true
	}},
	{"unsupported hinges", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		h := &jobj{}
		elemObj(d, e).set("hinges", h)
		if chance(t, 0.3) || e.Kind != "frame2d" {
			h.set(e.N0, []any{"Ux"}).set(e.N1, []any{"Ux"})
			return true
		}
		switch pick(t, 3) {
		case 0:
			h.set(e.N0, []any{"Uz"}).set(e.N1, []any{"Uz"})
		case 1:
			h.set(e.N0, []any{"Uz", "Phiy"}).set(e.N1, []any{"Phiy"})
		case 2:
			h.set(e.N0, []any{"Phiy", "Uz"}).set(e.N1, []any{"Uz", "Phiy"})
		}
		return true
	}},
	{"no Dirichlet values", func(t *rapid.T, s *Spec, d *jobj) bool {
		d.del("links")
		if chance(t, 0.3) {
			d.set("links", oneOf(t, &jobj{}, (&jobj{}).set(s.Nodes[0].ID, []any{})))
		}
		if chance(t, 0.5) {
			d.del("dirichlet")
		} else {
			d.set("dirichlet", oneOf(t, &jobj{}, (&jobj{}).set(s.Nodes[0].ID, []any{})))
		}
		return true
	}},
	{"support where nothing is connected", func(t *rapid.T, s *Spec, d *jobj) bool {
		u := append(unconnected(s), nowhere(s, "Ux")...)
		b := u[pick(t, len(u))]
		d.sub("dirichlet").appendTo(b.Node, (&jobj{}).set(b.Dof, oneOf(t, 0.0, 0.01)))
		return true
	}},
	{"load where nothing is connected", func(t *rapid.T, s *Spec, d *jobj) bool {
		u := append(unconnected(s), nowhere(s, "Uz")...)
		b := u[pick(t, len(u))]
		d.sub("neumann").appendTo(b.Node, (&jobj{}).set(loadNames[b.Dof][0], oneOf(t, 1.0, 0, -2)))
		return true
	}},
	{"inclined support where nothing is connected", func(t *rapid.T, s *Spec, d *jobj) bool {
		var u []BC
		for _, b := range append(unconnected(s), nowhere(s, "Ux")...) {
			if !strings.HasPrefix(b.Dof, "Phi") {
				u = append(u, b)
			}
		}
		b := u[pick(t, len(u))]
		other := "Ux"
		if b.Dof == "Ux" {
			other = "Uz"
		}
		o := (&jobj{}).set("from", b.Dof).set("to", other).set("angle", genAngle(t))
		if chance(t, 0.5) {
			o.set("from", other).set("to", b.Dof)
		}
		d.sub("links").appendTo(b.Node, o)
		return true
	}},
	{"value prescribed twice", func(t *rapid.T, s *Spec, d *jobj) bool {
		if len(s.Dirichlet) == 0 {
			return false
		}
		b := s.Dirichlet[pick(t, len(s.Dirichlet))]
		d.sub("dirichlet").appendTo(b.Node, (&jobj{}).set(b.Dof, oneOf(t, b.V, b.V+1, 0)))
		return true
	}},
	{"inclined support given twice", func(t *rapid.T, s *Spec, d *jobj) bool {
		var tr []dofKey
		for _, k := range s.dofs() {
			if !strings.HasPrefix(k.Dof, "Phi") {
				tr = append(tr, k)
			}
		}
		to := tr[pick(t, len(tr))]
		links := 1 // a prescribed value, and a link
		if len(s.Links) > 0 && chance(t, 0.5) {
			to = dofKey{s.Links[pick(t, len(s.Links))].Node, ""}
			to.Dof = s.Links[0].To
			for _, l := range s.Links {
				if l.Node == to.Node {
					to.Dof = l.To // and another one in the same direction
				}
			}
		} else if len(s.Dirichlet) > 0 && chance(t, 0.4) {
			b := s.Dirichlet[pick(t, len(s.Dirichlet))]
			if strings.HasPrefix(b.Dof, "Phi") {
				return false
			}
			to = dofKey{b.Node, b.Dof}
		} else {
			links = 2
		}
		var from []string
		for _, k := range tr {
			if k.Node == to.Node && k.Dof != to.Dof {
				from = append(from, k.Dof)
			}
		}
		if len(from) == 0 {
			return false
		}
		f, angle := from[pick(t, len(from))], genAngle(t)
		for ; links > 0; links-- {
			d.sub("links").appendTo(to.Node, (&jobj{}).set("from", f).set("to", to.Dof).set("angle", angle))
			if chance(t, 0.5) {
				f, angle = from[pick(t, len(from))], genAngle(t)
			}
		}
		return true
	}},
	{"everything prescribed", func(t *rapid.T, s *Spec, d *jobj) bool {
		d.del("links")
		dir := &jobj{}
		d.set("dirichlet", dir)
		for _, k := range s.dofs() {
			dir.appendTo(k.Node, (&jobj{}).set(k.Dof, oneOf(t, 0.0, 0, 0.01)))
		}
		return true
	}},
	{"wrong type", func(t *rapid.T, s *Spec, d *jobj) bool {
		e := anyElem(t, s)
		n := s.Nodes[pick(t, len(s.Nodes))].ID
		str := oneOf[any](t, "1", "x", true, []any{1.0}, &jobj{}, jraw("1e999"), jraw("-1e400"))
		switch pick(t, 14) {
		case 0:
			d.sub("nodes").set(n, []any{str, 1.0, 2.0})
		case 1:
			d.sub("nodes").set(n, oneOf[any](t, "x", 1.0, &jobj{}))
		case 2:
			d.sub("material").sub(s.Mats[0].ID).sub("parameter").set(oneOf(t, "E", "nu", "rho"), str)
		case 3:
			d.sub("crosssection").sub(s.CSs[0].ID).sub("parameter").set("b", str)
		case 4:
			elemObj(d, e).set("nodes", oneOf[any](t, "AB", 1.0, []any{1.0, 2.0}, true))
		case 5:
			elemObj(d, e).set("kind", oneOf[any](t, 1.0, []any{"truss2d"}, true))
		case 6:
			elemObj(d, e).set("hinges", oneOf[any](t, 1.0, []any{"Ux"}, "Ux", (&jobj{}).set(e.N0, "Ux")))
		case 7:
			d.sub("dirichlet").set(n, oneOf[any](t, (&jobj{}).set("Ux", 0.0), "Ux", []any{"Ux"}, 1.0, []any{(&jobj{}).set("Ux", str)}))
		case 8:
			d.sub("neumann").set(n, oneOf[any](t, (&jobj{}).set("Fx", 0.0), "Fx", []any{"Fx"}, 1.0, []any{(&jobj{}).set("Fx", str)}))
		case 9:
			d.sub("links").set(n, oneOf[any](t, "x", 1.0, (&jobj{}).set("from", "Ux"), []any{1.0}, []any{(&jobj{}).set("from", "Ux").set("to", "Uz").set("angle", str)}))
		case 10:
			d.set(oneOf(t, "nodes", "material", "crosssection", "elements", "dirichlet", "neumann", "links"), oneOf[any](t, "x", 1.0, []any{1.0}, true))
		case 11:
			d.sub("neumann").appendTo(e.ID, load("qx", "constant", []any{str}, nil))
		case 12:
			d.sub("neumann").appendTo(e.ID, (&jobj{}).set("kind", "qx").set("degree", "constant").set("values", oneOf[any](t, 1.0, "1", &jobj{})))
		case 13:
			d.sub("elements").set(e.ID, oneOf[any](t, "truss2d", 1.0, []any{}))
		}
		return true
	}},
}

func genDefect(t *rapid.T) *Defect {
	s := genDocSpec(t)
	for i := 0; ; i++ {
		intact := s.tree(nil)
		tree := s.tree(nil)
		k := pick(t, len(defects))
		if i > 20 {
			k = 0
		}
		if !defects[k].apply(t, s, tree) {
			continue
		}
		return &Defect{s, defects[k].name, render(t, tree), render(nil, intact)}
	}
}

// runDocument takes a document as far as possible.
func runDocument(doc []byte) (stage string, err error) {
	p, err := deflect.ProblemFromJSON(doc)
	if err != nil {
		return "parsing", err
	}
	idx, err := deflect.NewEqLayout(&p)
	if err != nil {
		return "numbering", err
	}
	r, err := deflect.NewLinearProblemSolver().Solve(&p, idx, deflect.NewCholeskySolver())
	if err != nil {
		return "solving", err
	}
	if r == nil {
		return "", fmt.Errorf("PANIC: neither result nor error")
	}
	prim, reac := r.PrimaryAll(), r.ReactionAll()
	if total, net := r.Dimension(); len(prim) != total || len(reac) != total || net > total {
		return "", fmt.Errorf("PANIC: %v displacements, %v reactions, dimension %v/%v", len(prim), len(reac), total, net)
	}
	for _, v := range prim {
		if w, err := r.Primary(v.Index); err != nil || (w.Value != v.Value && w.Value == w.Value) {
			return "", fmt.Errorf("PANIC: %v listed with %v, but reported as %v (%v)", v.Index, v.Value, w.Value, err)
		}
	}
	for _, tol := range []float64{0, 1e-9} {
		for _, ip := range r.InterpolateAll(tol) {
			for _, pc := range ip.Piecewise {
				if _, err := pc.Eval(pc.X0); err != nil {
					return "", fmt.Errorf("PANIC: %v", err)
				}
			}
		}
	}
	return "", nil
}

func checkDefect(c *Ctx, d *Defect) error {
	c.Label(d.What, true)
	c.NonTrivial(true)
	if _, err := runDocument([]byte(d.Intact)); err != nil {
		return skipf("not solvable without the defect either")
	}
	for i := 0; i < 3; i++ { // the order in which objects are visited may differ between runs
		stage, err := runDocument([]byte(d.Doc))
		if err == nil {
			return fmt.Errorf("defect ignored (%v): solved without an error\n%v", d.What, d.Doc)
		}
		if strings.HasPrefix(err.Error(), "PANIC") {
			return err
		}
		if strings.TrimSpace(err.Error()) == "" {
			return fmt.Errorf("empty error message (%v)", d.What)
		}
		c.Label("refused when "+stage, true)
	}
	if stage, err := runDocument([]byte(d.Intact)); err != nil && stage != "solving" {
		return fmt.Errorf("refused after a defective document (%v), but not before: %w\n%v", d.What, err, d.Intact)
	}
	return nil
}

// Robust is any sequence of bytes.
type Robust struct {
	Doc  []byte
	Text string // for readability
	From string
}

var anyValues = []any{nil, true, "", "x", "Ux", "A", "AB", 0.0, -1.0, 1.0, 1e300, -1e300, 1e-300, jraw("1e999"), []any{}, []any{nil},
	[]any{1.0, 2.0, 3.0}, &jobj{}, jraw("-0"), jraw("9007199254740993"), jraw(`"\ud800"`), jraw("[[[[[[]]]]]]"), jraw(`{"kind":"qx","degree":"dirac"}`),
	jraw(`{"":0}`), 1e150, 1e-150, 3.0, 0.5, jraw("[\"A\",\"A\"]"), jraw("[null]"), jraw("[{}]")}

// mutate changes the tree at a random place.
func mutate(t *rapid.T, v any) any {
	if chance(t, 0.12) {
		return anyValues[pick(t, len(anyValues))]
	}
	switch x := v.(type) {
	case *jobj:
		if len(x.pairs) == 0 {
			return (&jobj{}).set(oneOf(t, "A", "Ux", "Fx", "kind", "roll"), anyValues[pick(t, len(anyValues))])
		}
		k := pick(t, len(x.pairs))
		switch {
		case chance(t, 0.06):
			x.del(x.pairs[k].key)
		case chance(t, 0.06): // the same key twice
			x.pairs = append(x.pairs, jpair{x.pairs[k].key, x.pairs[pick(t, len(x.pairs))].val})
		case chance(t, 0.06):
			l := pick(t, len(x.pairs))
			x.pairs[k].val, x.pairs[l].val = x.pairs[l].val, x.pairs[k].val
		case chance(t, 0.06):
			x.pairs[k].key = oneOf(t, x.pairs[k].key+"x", "", "A", "Ux", strings.ToUpper(x.pairs[k].key))
		default:
			x.pairs[k].val = mutate(t, x.pairs[k].val)
		}
		return x
	case []any:
		if len(x) == 0 {
			return []any{anyValues[pick(t, len(anyValues))]}
		}
		k := pick(t, len(x))
		y := append([]any{}, x...)
		switch {
		case chance(t, 0.1):
			return append(y[:k], y[k+1:]...)
		case chance(t, 0.1):
			return append(y, y[k])
		default:
			y[k] = mutate(t, y[k])
			return y
		}
	case float64:
		return oneOf[any](t, 0.0, -x, x*1e8, x*1e-8, x+1, 1e308, -1e308, 5e-324, x*1e30, x*1e-30, "1", nil, x*1e120)
	case string:
		return oneOf[any](t, "", x+"x", "Ux", "Uz", "Phiy", "A", "B", "dirac", "linear", "constant", "frame2d", "truss2d", "truss3d", "constants", 1.0, nil, "Uy", "AB")
	}
	return anyValues[pick(t, len(anyValues))]
}

func genStructural(t *rapid.T) *Robust {
	var tree any = genDocSpec(t).tree(nil)
	n := 1 + pick(t, 4)
	for i := 0; i < n; i++ {
		tree = mutate(t, tree)
	}
	w := &writer{}
	w.value(tree)
	s := w.b.String()
	return &Robust{Doc: []byte(s), Text: s, From: "structure"}
}

var tokens = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "1e5", "-", "0", "9", ".", "e", "\\u0000", "\\ud800", "\x00", "\xff",
	"\"A\"", "\"kind\"", "\"degree\"", "[]", "{}", "1e309", "\"Ux\":0", "\xef\xbb\xbf", "//", "'", "NaN", "Infinity"}

func genBytes(t *rapid.T) *Robust {
	var doc []byte
	if chance(t, 0.03) {
		n := pick(t, 40)
		for i := 0; i < n; i++ {
			doc = append(doc, tokens[pick(t, len(tokens))]...)
		}
		return &Robust{Doc: doc, Text: strings.ToValidUTF8(string(doc), "?"), From: "tokens"}
	}
	doc = []byte(render(nil, genDocSpec(t).tree(nil)))
	n := 1 + pick(t, 5)
	for i := 0; i < n && len(doc) > 0; i++ {
		k := pick(t, len(doc))
		switch pick(t, 6) {
		case 0:
			doc[k] ^= byte(1 << pick(t, 8))
		case 1:
			l := k + 1 + pick(t, 12)
			doc = append(doc[:k:k], doc[min(l, len(doc)):]...)
		case 2:
			tok := tokens[pick(t, len(tokens))]
			doc = append(doc[:k:k], append([]byte(tok), doc[k:]...)...)
		case 3: // repeat a part
			l := min(len(doc), k+1+pick(t, 60))
			doc = append(doc[:l:l], append(append([]byte{}, doc[k:l]...), doc[l:]...)...)
		case 4: // digits
			for j := k; j < len(doc); j++ {
				if doc[j] >= '0' && doc[j] <= '9' {
					doc[j] = byte('0' + pick(t, 10))
					break
				}
			}
		case 5: // exchange two letters
			l := pick(t, len(doc))
			doc[k], doc[l] = doc[l], doc[k]
		}
	}
	return &Robust{Doc: doc, Text: strings.ToValidUTF8(string(doc), "?"), From: "bytes"}
}

func checkRobust(c *Ctx, r *Robust) error {
	in := string(r.Doc)
	stage, err := runDocument(r.Doc)
	if string(r.Doc) != in {
		return fmt.Errorf("the input was modified")
	}
	c.NonTrivial(true)
	if err == nil && !json.Valid(r.Doc) {
		return fmt.Errorf("solved, though it isn't JSON: %s", r.Doc)
	}
	if err == nil {
		c.Label("solved", true)
		return nil
	}
	if strings.HasPrefix(err.Error(), "PANIC") {
		return err
	}
	c.Label("refused when "+stage, true)
	return nil
}

// Truncated is a document of which the end is missing.
type Truncated struct {
	Doc string
	Cut int
}

func genTruncated(t *rapid.T) *Truncated {
	doc := strings.TrimSpace(render(t, genDocSpec(t).tree(t)))
	k := pick(t, len(doc))
	for !utf8.RuneStart(doc[k]) {
		k--
	}
	return &Truncated{doc, k}
}

func checkTruncated(c *Ctx, d *Truncated) error {
	c.NonTrivial(d.Cut > 0)
	if d.Cut < 0 || d.Cut >= len(d.Doc) {
		return skipf("not truncated")
	}
	if _, err := deflect.ProblemFromJSON([]byte(d.Doc[:d.Cut])); err == nil {
		return fmt.Errorf("document without its end accepted: %v", d.Doc[:d.Cut])
	}
	return nil
}

// Surplus is a document with something that doesn't belong there before, after or in it.
type Surplus struct {
	Doc string
}

func genSurplus(t *rapid.T) *Surplus {
	doc := render(t, genDocSpec(t).tree(t))
	extra := oneOf(t, "}", "]", "{}", "[]", "null", ",", "0", "\"\"", "x", "//", "# end", "/* */", ";", "\x00", ")", "{\"nodes\":{}}")
	switch pick(t, 5) {
	case 0, 1:
		return &Surplus{doc + extra}
	case 2:
		return &Surplus{doc + oneOf(t, "\n", " ", "\n\n", "\t") + extra}
	case 3:
		return &Surplus{extra + doc}
	}
	return &Surplus{doc + "\n" + doc}
}

func checkSurplus(c *Ctx, d *Surplus) error {
	if json.Valid([]byte(d.Doc)) {
		return skipf("still JSON")
	}
	c.NonTrivial(true)
	if _, err := deflect.ProblemFromJSON([]byte(d.Doc)); err == nil {
		return fmt.Errorf("accepted, though it isn't JSON: %v", d.Doc)
	}
	return nil
}
