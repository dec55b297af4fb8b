package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strings"
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
	"pgregory.net/rapid"
)

func init() {
	register("C26",
		sub("accept", "at least two expectations, or one that isn't met", 24000, 600000, genExpect, checkExpect),
		sub("malformed", "every case holds one malformed part", 8000, 200000, genMalformed, checkMalformed),
		sub("solved", "expectations taken from a solved problem, and a single one changed", 2400, 100000, genSolvedExpect, checkSolvedExpect))
}

// testT is a real test's handle, see main.
var testT *testing.T

// verdict is true when f reports no failure.
func verdict(f func(t *testing.T)) (ok bool, err error) {
	ok = testT.Run("v", func(t *testing.T) {
		err = safely(func() error { f(t); return nil })
	})
	return ok, err
}

// NV is a nodal value with the name used in documents.
type NV struct {
	Node, Name string
	V          float64
}

type ExpPiece struct {
	X0, XE float64
	C      []float64
}

// Curve is an interpolation of an element.
type Curve struct {
	Elem, Kind string
	Pieces     []ExpPiece
}

// Observed is what a problem's result reports.
type Observed struct {
	Primary, Reaction []NV
	Curves            []Curve
	Error             *string
	Odd               map[string]string `json:",omitempty"` // values that are not finite, replacing the ones above
}

var oddValues = map[string]float64{"NaN": math.NaN(), "+Inf": math.Inf(1), "-Inf": math.Inf(-1)}

// value replaces one that is declared not to be finite.
func (o *Observed) value(v float64, key ...string) float64 {
	if odd, ok := oddValues[o.Odd[strings.Join(key, "/")]]; ok {
		return odd
	}
	return v
}

// ExpCurve is an expected interpolation.
type ExpCurve struct {
	Elem, Kind string
	Degree     int
	Range      []float64 `json:",omitempty"`
	Boundary   []float64 `json:",omitempty"`
	Eval       [][]float64
}

// Expect is an expectation document, and results to judge by it.
type Expect struct {
	TolPrimary, TolReaction, TolPoly *float64
	Primary, Reaction                []NV
	Curves                           []ExpCurve
	Failure                          *string // regular expression, mostly one that matches Literal
	Literal                          string
	Results                          []Observed
	Doc                              string
}

var primaryNames = map[string]deflect.Dof{"Ux": deflect.Ux, "Uy": deflect.Uy, "Uz": deflect.Uz,
	"Phix": deflect.Phix, "Phiy": deflect.Phiy, "Phiz": deflect.Phiz}
var reactionNames = map[string]deflect.Dof{"Fx": deflect.Ux, "Fy": deflect.Uy, "Fz": deflect.Uz,
	"Mx": deflect.Phix, "My": deflect.Phiy, "Mz": deflect.Phiz}
var primaryOrder = []string{"Ux", "Uy", "Uz", "Phix", "Phiy", "Phiz"}
var reactionOrder = []string{"Fx", "Fy", "Fz", "Mx", "My", "Mz"}

// fake implements deflect.ProblemResult.
type fake struct{ o *Observed }

func (f fake) nodal(i deflect.Index, vs []NV, names map[string]deflect.Dof) (deflect.NodalValue, error) {
	for _, v := range vs {
		if v.Node == i.NodalID && names[v.Name] == i.Dof {
			return deflect.NodalValue{Index: i, Value: f.o.value(v.V, v.Node, v.Name)}, nil
		}
	}
	return deflect.NodalValue{Index: i}, errors.New("no such index")
}

func (f fake) Primary(i deflect.Index) (deflect.NodalValue, error) {
	return f.nodal(i, f.o.Primary, primaryNames)
}

func (f fake) Reaction(i deflect.Index) (deflect.NodalValue, error) {
	return f.nodal(i, f.o.Reaction, reactionNames)
}

func (f fake) all(vs []NV, names map[string]deflect.Dof) (out []deflect.NodalValue) {
	for _, v := range vs {
		out = append(out, deflect.NodalValue{Index: deflect.Index{NodalID: v.Node, Dof: names[v.Name]}, Value: f.o.value(v.V, v.Node, v.Name)})
	}
	return
}

func (f fake) PrimaryAll() []deflect.NodalValue  { return f.all(f.o.Primary, primaryNames) }
func (f fake) ReactionAll() []deflect.NodalValue { return f.all(f.o.Reaction, reactionNames) }
func (f fake) Dimension() (int, int)             { return len(f.o.Primary), len(f.o.Primary) }

func (f fake) find(elem, kind string) *Curve {
	for i := range f.o.Curves {
		if f.o.Curves[i].Elem == elem && f.o.Curves[i].Kind == kind {
			return &f.o.Curves[i]
		}
	}
	return nil
}

func (f fake) Interpolate(elem string, q deflect.Fct, tol float64) (deflect.Interpolation, error) {
	for k, v := range fctOf {
		if v != q {
			continue
		}
		known := false
		for _, c := range f.o.Curves {
			known = known || c.Elem == elem
		}
		if !known {
			return deflect.Interpolation{}, errors.New("no such element")
		}
		r := deflect.Interpolation{Element: elem, Quantity: q}
		if c := f.find(elem, k); c != nil {
			for _, p := range c.Pieces {
				cs := append([]float64{}, p.C...)
				if len(cs) > 0 {
					cs[0] = f.o.value(cs[0], elem, k)
				}
				r.Piecewise = append(r.Piecewise, deflect.PolyPiece{X0: p.X0, XE: p.XE, Coeff: cs})
			}
		}
		return r, nil
	}
	return deflect.Interpolation{}, errors.New("no such function")
}

func (f fake) InterpolateAll(tol float64) (out []deflect.Interpolation) {
	for _, c := range f.o.Curves {
		ip, _ := f.Interpolate(c.Elem, fctOf[c.Kind], tol)
		out = append(out, ip)
	}
	return
}

const (
	vOK = iota
	vBad
	vUnclear
)

// judge compares a value with an expected one. Values close to the limit are unclear.
func judge(got, want, abs, rel float64) int {
	if got == want {
		return vOK
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return vBad
	}
	d := math.Abs(got - want)
	limit := math.Max(abs, rel*math.Max(math.Abs(got), math.Abs(want)))
	switch {
	case d <= 0.8*limit:
		return vOK
	case d >= 1.25*limit && limit > 0:
		return vBad
	case limit == 0:
		return vBad
	}
	return vUnclear
}

func orDefault(p *float64) float64 {
	if p == nil {
		return 1e-8
	}
	return *p
}

func worse(a, b int) int {
	if a == vBad || b == vBad {
		return vBad
	}
	return max(a, b)
}

// reference decides by the documented meaning of expectations.
func (x *Expect) reference(o *Observed) (primary, reaction, curves, failure int) {
	nodal := func(exp, got []NV, tol float64) int {
		v := vOK
		for _, e := range exp {
			one := vBad
			for _, g := range got {
				if g.Node == e.Node && g.Name == e.Name {
					one = judge(o.value(g.V, g.Node, g.Name), e.V, 1e-8, tol)
				}
			}
			v = worse(v, one)
		}
		return v
	}
	primary = nodal(x.Primary, o.Primary, orDefault(x.TolPrimary))
	reaction = nodal(x.Reaction, o.Reaction, orDefault(x.TolReaction))
	tol := orDefault(x.TolPoly)
	for _, e := range x.Curves {
		curves = worse(curves, e.reference(o, tol))
	}
	switch {
	case x.Failure == nil:
		failure = vOK
		if o.Error != nil {
			failure = vBad
		}
	case o.Error == nil:
		failure = vBad
	default:
		failure = vBad
		re := regexp.MustCompile(*x.Failure)
		if re.MatchString(*o.Error) || re.MatchString(strings.ToLower(*o.Error)) {
			failure = vOK
		}
	}
	return
}

func (e *ExpCurve) reference(o *Observed, tol float64) int {
	c := fake{o}.find(e.Elem, e.Kind)
	if c == nil || len(c.Pieces) == 0 {
		return vBad
	}
	var p *ExpPiece
	if len(e.Range) == 0 {
		if len(c.Pieces) != 1 {
			return vBad
		}
		p = &c.Pieces[0]
	} else {
		for i := range c.Pieces {
			q := &c.Pieces[i]
			a, b := judge(q.X0, e.Range[0], 1e-10, 1e-10), judge(q.XE, e.Range[1], 1e-10, 1e-10)
			if a == vUnclear || b == vUnclear {
				return vUnclear
			}
			if a == vOK && b == vOK {
				p = q
				break
			}
		}
		if p == nil {
			return vBad
		}
	}
	v := vOK
	if len(p.C)-1 != e.Degree {
		v = vBad
	}
	at := func(x, want float64) {
		if x < p.X0-1e-9 || x > p.XE+1e-9 {
			v = vBad
			return
		}
		if x < p.X0 || x > p.XE {
			v = worse(v, vUnclear)
			return
		}
		if o.Odd[e.Elem+"/"+e.Kind] != "" {
			v = vBad
			return
		}
		y, noise := horner(p.C, x), 1e-13*coefScale(p.C, x)
		d, limit := math.Abs(y-want), tol*math.Max(1, math.Max(math.Abs(y), math.Abs(want)))
		switch {
		case y == want && (x == 0 || len(p.C) == 1) || d+noise <= 0.8*limit:
		case d-noise >= 1.25*limit && d > noise:
			v = vBad
		default:
			v = worse(v, vUnclear)
		}
	}
	if len(e.Boundary) > 0 {
		at(p.X0, e.Boundary[0])
	}
	if len(e.Boundary) > 1 {
		at(p.XE, e.Boundary[1])
	}
	for _, s := range e.Eval {
		at(s[0], s[1])
	}
	return v
}

var expectNodes = []string{"A", "B", "node 3", "ä"}
var expectElems = []string{"AB", "BC", "e\"1"}

func genTol(t *rapid.T) *float64 {
	if chance(t, 0.4) {
		return nil
	}
	v := oneOf(t, 1e-8, 1e-4, 1e-2, 1e-10, 0.1, 1e-6, 0, 1e-8, 1e-4, 1e-2, 1e-10, 0.1, 1e-6, 0, 2, 1e6)
	return &v
}

// disturb changes a value by a fraction or a multiple of the tolerance.
func disturb(t *rapid.T, v, abs, rel float64, p float64) float64 {
	if !chance(t, p) {
		return v
	}
	limit := math.Max(abs, rel*math.Abs(v))
	if limit == 0 {
		limit = 1e-9 * math.Max(1, math.Abs(v))
	}
	switch pick(t, 9) {
	case 0, 1:
		return v + limit*oneOf(t, 0.5, -0.5, 0.1, -0.7)
	case 2, 3:
		return v + limit*oneOf(t, 1.6, -1.6, 3, -5)
	case 4:
		return -v
	case 5:
		return v + 1
	case 6:
		return 0
	case 7:
		return v * oneOf(t, 2.0, 10, 0.1, 1.01, 0.999)
	}
	return v + rel*oneOf(t, 1.6, -1.6, 0.5)
}

func genValue(t *rapid.T) float64 {
	if chance(t, 0.15) {
		return 0
	}
	return signed(t) * logBetween(t, 1e-9, 1e9)
}

func genPieces(t *rapid.T, rel float64) []ExpPiece {
	n := oneOf(t, 1, 1, 2, 3, 1, 1, 2, 3, 1, 1, 2, 3, 1, 1, 2, 8)
	x := 0.0
	var out []ExpPiece
	for i := 0; i < n; i++ {
		p := ExpPiece{X0: x, XE: x + between(t, 0.1, 4)}
		x = p.XE
		deg := pick(t, 6)
		scale := logBetween(t, 1e-3, 1e6)
		for k := 0; k <= deg; k++ {
			p.C = append(p.C, scale*signed(t))
		}
		out = append(out, p)
	}
	return out
}

func genObserved(t *rapid.T) Observed {
	o := Observed{}
	for _, n := range expectNodes {
		for i := range primaryOrder {
			if chance(t, 0.4) {
				o.Primary = append(o.Primary, NV{n, primaryOrder[i], genValue(t)})
				o.Reaction = append(o.Reaction, NV{n, reactionOrder[i], genValue(t)})
			}
		}
	}
	share := oneOf(t, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.08, 0.6)
	elems := expectElems
	if share > 0.5 {
		elems = append(elems[:3:3], "CD", "DE", "EF", "FG", "0")
	}
	for _, e := range elems {
		for _, k := range allFcts {
			if chance(t, share) {
				o.Curves = append(o.Curves, Curve{e, k, genPieces(t, 0)})
			}
		}
	}
	return o
}

func (o *Observed) clone() Observed {
	data, _ := json.Marshal(o)
	var c Observed
	json.Unmarshal(data, &c)
	return c
}

var literals = []string{"not found", "no dirichlet", "singular", "element 'ab'", "unknown element type 'x'", "[0, 1.5]", "a+b", "negative (x)"}

// pattern is a regular expression for the given message, usually its literal
// text, and otherwise one which leaves something open, restricts where it
// matches or which differs in case.
func pattern(t *rapid.T, l string) string {
	q := quoteMeta(l)
	switch pick(t, 13) {
	case 12:
		return "" // any failure
	case 0:
		return strings.ToUpper(q[:1]) + q[1:]
	case 1:
		return "[A-Z]"
	case 2:
		return "^" + q
	case 3:
		return q + "$"
	case 4:
		return "^solve: " + q + "$"
	case 5:
		return q + "|" + quoteMeta(literals[pick(t, len(literals))])
	case 6:
		w := strings.Fields(l)
		return quoteMeta(w[0]) + ".*" + quoteMeta(w[len(w)-1])
	case 7:
		return "(?i)" + strings.ToUpper(quoteMeta(strings.Fields(l)[0]))
	case 8:
		return "Solve: " + q
	case 9:
		return ".+" + q
	}
	return q
}

func genExpect(t *rapid.T) *Expect {
	x := &Expect{TolPrimary: genTol(t), TolReaction: genTol(t), TolPoly: genTol(t)}
	o := genObserved(t)
	strict := oneOf(t, 0, 0.02, 0.1, 0.4)
	nodal := func(vs []NV, tol float64, order []string) (out []NV) {
		for _, v := range vs {
			if !chance(t, 0.4) {
				continue
			}
			v.V = disturb(t, v.V, 1e-8, tol, strict)
			out = append(out, v)
		}
		if chance(t, 0.05) {
			out = append(out, NV{oneOf(t, "nowhere", expectNodes[0], expectNodes[1]), order[pick(t, 6)], 0})
		}
		return
	}
	x.Primary = nodal(o.Primary, orDefault(x.TolPrimary), primaryOrder)
	x.Reaction = nodal(o.Reaction, orDefault(x.TolReaction), reactionOrder)
	tol := orDefault(x.TolPoly)
	for _, c := range o.Curves {
		for i, p := range c.Pieces {
			if !chance(t, 0.5) {
				continue
			}
			e := ExpCurve{Elem: c.Elem, Kind: c.Kind, Degree: len(p.C) - 1}
			if len(c.Pieces) > 1 || chance(t, 0.3) {
				e.Range = []float64{p.X0, p.XE}
				if chance(t, 0.05) {
					e.Range[pick(t, 2)] += oneOf(t, 1e-13, -1e-13, 3e-11, -3e-11)
				} else if chance(t, 0.05) {
					e.Range[pick(t, 2)] += oneOf(t, 0.01, -0.01, 1e-5, 1e-8, -1e-7, 1e-9)
				}
			}
			if e.Range != nil && chance(t, 0.02) {
				e.Range[0], e.Range[1] = e.Range[1], e.Range[0]
			}
			if i > 0 && chance(t, 0.02) {
				e.Range = nil
			}
			if chance(t, 0.03) {
				e.Degree += oneOf(t, 1, -1, 1, -1, 19)
			}
			switch pick(t, 3) {
			case 1:
				e.Boundary = []float64{disturb(t, horner(p.C, p.X0), tol, tol, strict)}
			case 2:
				e.Boundary = []float64{disturb(t, horner(p.C, p.X0), tol, tol, strict), disturb(t, horner(p.C, p.XE), tol, tol, strict)}
				if chance(t, 0.08) { // the same value at both ends
					v := e.Boundary[pick(t, 2)]
					e.Boundary = []float64{v, v}
				}
			}
			for n := few(t, 4, 12); n > 0; n-- {
				xx := p.X0 + (p.XE-p.X0)*between(t, 0.01, 0.99)
				if chance(t, 0.02) {
					xx = oneOf(t, p.X0-0.3, p.XE+0.3)
				}
				e.Eval = append(e.Eval, []float64{xx, disturb(t, horner(p.C, xx), tol, tol, strict)})
			}
			x.Curves = append(x.Curves, e)
		}
	}
	if chance(t, 0.03) {
		x.Curves = append(x.Curves, ExpCurve{Elem: oneOf(t, "nowhere", "AB"), Kind: allFcts[pick(t, 12)], Degree: 0})
	}
	if chance(t, 0.25) {
		x.Literal = literals[pick(t, len(literals))]
		re := pattern(t, x.Literal)
		x.Failure = &re
	}
	message := func() *string {
		if !chance(t, 0.3) {
			return nil
		}
		l := literals[pick(t, len(literals))]
		if chance(t, 0.6) && x.Literal != "" {
			l = x.Literal
		}
		m := "solve: " + l
		switch pick(t, 6) {
		case 0:
			m = "Solve: " + l
		case 1:
			m = strings.ToUpper(l[:1]) + l[1:] + ": x"
		case 2:
			m = strings.ToUpper(l)
		case 3:
			m = l[:len(l)-1]
		}
		if chance(t, 0.05) {
			m = ""
		}
		return &m
	}
	n := 1 + pick(t, 3)
	for i := 0; i < n; i++ {
		c := o.clone()
		if i > 0 { // another result, the same expectations
			for k := range c.Primary {
				c.Primary[k].V = disturb(t, c.Primary[k].V, 1e-8, orDefault(x.TolPrimary), 0.1)
			}
			for k := range c.Reaction {
				c.Reaction[k].V = disturb(t, c.Reaction[k].V, 1e-8, orDefault(x.TolReaction), 0.1)
			}
			for k := range c.Curves {
				if chance(t, 0.1) {
					c.Curves[k].Pieces = genPieces(t, 0)
				}
			}
		}
		if chance(t, 0.1) {
			c.Odd = map[string]string{}
			mark := func(key string) {
				if chance(t, 0.2) {
					c.Odd[key] = oneOf(t, "NaN", "NaN", "+Inf", "-Inf")
				}
			}
			for _, v := range append(append([]NV{}, c.Primary...), c.Reaction...) {
				mark(v.Node + "/" + v.Name)
			}
			for _, k := range c.Curves {
				mark(k.Elem + "/" + k.Kind)
			}
		}
		c.Error = message()
		x.Results = append(x.Results, c)
	}
	x.Doc = render(t, x.tree(t))
	return x
}

func quoteMeta(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (x *Expect) tree(t *rapid.T) *jobj {
	may := func(p float64) bool { return t != nil && chance(t, p) }
	e := &jobj{}
	if x.TolPrimary != nil {
		e.sub("tolerance").set("primary", *x.TolPrimary)
	}
	if x.TolReaction != nil {
		e.sub("tolerance").set("reaction", *x.TolReaction)
	}
	if x.TolPoly != nil {
		e.sub("tolerance").set("polynomial", *x.TolPoly)
	}
	nodal := func(key string, vs []NV) {
		for _, v := range vs {
			o := e.sub(key)
			arr, _ := o.get(v.Node).([]any)
			if len(arr) > 0 && may(0.5) {
				if last := arr[len(arr)-1].(*jobj); !last.has(v.Name) {
					last.set(v.Name, v.V)
					continue
				}
			}
			o.appendTo(v.Node, (&jobj{}).set(v.Name, v.V))
		}
	}
	nodal("primary", x.Primary)
	nodal("reaction", x.Reaction)
	for _, c := range x.Curves {
		o := (&jobj{}).set("kind", c.Kind).set("degree", jraw(fmt.Sprint(c.Degree)))
		if c.Range != nil {
			o.set("range", nums(c.Range...))
		} else if may(0.1) {
			o.set("range", []any{})
		}
		if c.Boundary != nil {
			o.set("boundary", nums(c.Boundary...))
		} else if may(0.1) {
			o.set("boundary", []any{})
		}
		if c.Eval != nil {
			var s []any
			for _, p := range c.Eval {
				s = append(s, nums(p...))
			}
			o.set("eval", s)
		}
		e.sub("interpolation").appendTo(c.Elem, o)
	}
	if x.Failure != nil {
		e.set("failure", *x.Failure)
	}
	doc := (&jobj{}).set("expected", e)
	if may(0.5) {
		doc.set("name", "unrelated").set("nodes", &jobj{})
	}
	return doc
}

// verdicts runs all expectations against a result.
func verdicts(exps []integr.Expectation, r deflect.ProblemResult, failure error) (primary, reaction, curves, fail bool, err error) {
	run := func(f func(e integr.Expectation, t *testing.T)) bool {
		ok, e := verdict(func(t *testing.T) {
			for _, x := range exps {
				f(x, t)
			}
		})
		if e != nil && err == nil {
			err = e
		}
		return ok
	}
	fail = run(func(e integr.Expectation, t *testing.T) { e.Failure(failure, t) })
	primary = run(func(e integr.Expectation, t *testing.T) { e.Primary(r, t) })
	reaction = run(func(e integr.Expectation, t *testing.T) { e.Reaction(r, t) })
	curves = run(func(e integr.Expectation, t *testing.T) { e.Interpolated(r, t) })
	return
}

func checkExpect(c *Ctx, x *Expect) error {
	exps, err := integr.ExpectationsFromJSON([]byte(x.Doc))
	if err != nil {
		return fmt.Errorf("valid expectations refused: %w\n%v", err, x.Doc)
	}
	return judgeAll(c, x, exps)
}

func judgeAll(c *Ctx, x *Expect, exps []integr.Expectation) error {
	c.NonTrivial(len(x.Primary)+len(x.Reaction)+len(x.Curves) >= 2)
	for i := range x.Results {
		o := &x.Results[i]
		var failure error
		if o.Error != nil {
			failure = errors.New(*o.Error)
		}
		for repeat := 0; repeat < 2; repeat++ {
			p, r, q, f, err := verdicts(exps, fake{o}, failure)
			if err != nil {
				return err
			}
			wp, wr, wq, wf := x.reference(o)
			c.Label("values that are not finite", len(o.Odd) > 0)
			for _, k := range []struct {
				what string
				got  bool
				want int
			}{{"displacements", p, wp}, {"reactions", r, wr}, {"interpolations", q, wq}, {"failure", f, wf}} {
				c.Label(fmt.Sprintf("%v: %v", k.what, []string{"met", "not met", "unclear"}[k.want]), repeat == 0)
				c.NonTrivial(k.want == vBad)
				if k.want != vUnclear && k.got != (k.want == vOK) {
					return fmt.Errorf("%v: accepted is %v, must be %v (result %v, repetition %v)\n%v", k.what, k.got, !k.got, i, repeat, x.Doc)
				}
			}
		}
	}
	return nil
}

// Malformed is an expectation document that must be rejected.
type Malformed struct {
	What, Doc string
	Then      *Expect `json:",omitempty"` // a proper one, judged afterwards
}

func genMalformed(t *rapid.T) *Malformed {
	x := genExpect(t)
	if len(x.Curves) == 0 {
		x.Curves = append(x.Curves, ExpCurve{Elem: "AB", Kind: "Ux", Degree: 1})
	}
	doc := x.tree(nil)
	e := doc.sub("expected")
	k := pick(t, len(x.Curves))
	// All curves of an element are in one array, find the chosen one.
	n := 0
	for i := 0; i < k; i++ {
		if x.Curves[i].Elem == x.Curves[k].Elem {
			n++
		}
	}
	curve := e.sub("interpolation").get(x.Curves[k].Elem).([]any)[n].(*jobj)
	what := ""
	str := func() any { return oneOf[any](t, "1", true, &jobj{}, []any{1.0}, "x") }
	switch pick(t, 16) {
	case 0:
		what = "no expectations"
		doc.del("expected")
	case 1:
		what = "unknown field"
		e.set(oneOf(t, "reactions", "primaries", "x", "interpolations", "fail", "tol", ""), &jobj{})
	case 2:
		what = "unknown tolerance"
		e.sub("tolerance").set(oneOf(t, "interpolation", "nodal", "x"), 1e-3)
	case 3:
		what = "unknown field of interpolation"
		curve.set(oneOf(t, "bounds", "x", "samples", "position", "values", "tolerance"), nums(1, 2))
	case 4:
		what = "unknown displacement"
		e.sub("primary").appendTo("A", (&jobj{}).set(oneOf(t, append([]string{"qx", "Nx"}, badDofs...)...), 0.0))
	case 5:
		what = "unknown reaction"
		e.sub("reaction").appendTo("A", (&jobj{}).set(oneOf(t, append([]string{"fx", "Vz", "qz"}, badDofs...)...), 0.0))
	case 6:
		what = "unknown quantity"
		curve.set("kind", oneOf(t, append([]string{"Fx", "qz", "Nz", "Vx"}, badDofs...)...))
	case 7:
		what = "no quantity"
		curve.del("kind")
	case 8:
		what = "malformed range"
		curve.set("range", oneOf(t, nums(1), nums(1, 2, 3), nums(0)))
	case 9:
		what = "malformed sample"
		curve.appendTo("eval", oneOf(t, nums(1), nums(1, 2, 3), []any{}))
	case 10:
		what = "too many boundary values"
		curve.set("boundary", nums(1, 2, 3))
	case 11:
		what = "malformed regular expression"
		e.set("failure", oneOf(t, "(", "[", "*", "a(b", "\\"))
	case 12:
		what = "wrong type of value"
		e.sub(oneOf(t, "primary", "reaction")).set("A", oneOf[any](t, 1.0, "x", (&jobj{}).set("Ux", 0.0), []any{1.0}, []any{(&jobj{}).set("Ux", str())}))
	case 13:
		what = "wrong type in interpolation"
		curve.set(oneOf(t, "range", "boundary", "eval"), oneOf[any](t, 1.0, "x", &jobj{}, []any{"x"}))
	case 14:
		what = "wrong type of degree"
		curve.set("degree", oneOf[any](t, "1", 1.5, []any{1.0}, true))
	case 15:
		what = "wrong type"
		e.set(oneOf(t, "tolerance", "primary", "reaction", "interpolation", "failure"), oneOf[any](t, 1.0, []any{1.0}, true))
	}
	m := &Malformed{What: what, Doc: render(t, doc)}
	if chance(t, 0.15) {
		m.Then = genExpect(t)
	}
	return m
}

func checkMalformed(c *Ctx, m *Malformed) error {
	c.Label(m.What, true)
	c.NonTrivial(true)
	for i := 0; i < 2; i++ {
		if _, err := integr.ExpectationsFromJSON([]byte(m.Doc)); err == nil {
			return fmt.Errorf("malformed expectations accepted (%v)\n%v", m.What, m.Doc)
		}
	}
	if m.Then != nil {
		return checkExpect(c, m.Then)
	}
	return nil
}

// SolvedExpect is a structure and the change to apply to one of the expectations taken from its results.
type SolvedExpect struct {
	Spec   *Spec
	What   int
	Which  float64
	Factor float64
}

func genSolvedExpect(t *rapid.T) *SolvedExpect {
	return &SolvedExpect{genSpec(t, genOpts{maxNodes: 4, oddIDs: true}), pick(t, 5), frac(t), oneOf(t, 1.0, -1, 30)}
}

func checkSolvedExpect(c *Ctx, se *SolvedExpect) error {
	s := se.Spec
	a, err := solveOutcome(s)
	if err != nil {
		return err
	}
	tol := 1e-6
	x := &Expect{TolPrimary: &tol, TolReaction: &tol}
	for _, k := range s.dofs() {
		x.Primary = append(x.Primary, NV{k.Node, k.Dof, a.U[k]})
		x.Reaction = append(x.Reaction, NV{k.Node, loadNames[k.Dof][0], a.R[k]})
	}
	for _, e := range s.Elems {
		for _, f := range kindFcts(e.Kind) {
			ip, err := a.r.Interpolate(e.ID, fctOf[f], 1e-8)
			if err != nil {
				return err
			}
			for _, p := range ip.Piecewise {
				var y [3]float64 // evaluated just like the expectation does
				for k, xx := range []float64{p.X0, p.XE, 0.5 * (p.X0 + p.XE)} {
					if y[k], err = p.Eval(xx); err != nil {
						return err
					}
				}
				x.Curves = append(x.Curves, ExpCurve{e.ID, f, p.Degree(), []float64{p.X0, p.XE}, y[:2],
					[][]float64{{0.5 * (p.X0 + p.XE), y[2]}}})
				if p.XE-p.X0 < 1e-6 {
					return skipf("narrow piece")
				}
			}
		}
	}
	judgeDoc := func() (p, r, q bool, err error) {
		exps, err := integr.ExpectationsFromJSON([]byte(render(nil, x.tree(nil))))
		if err != nil {
			return false, false, false, err
		}
		p, r, q, f, err := verdicts(exps, a.r, nil)
		if err == nil && !f {
			err = errors.New("success reported as failure")
		}
		return p, r, q, err
	}
	p, r, q, err := judgeDoc()
	if err != nil {
		return err
	}
	if !p || !r || !q {
		return fmt.Errorf("result doesn't meet its own values: displacements %v, reactions %v, interpolations %v", p, r, q)
	}
	wp, wr, wq := true, true, true
	change := func(v *float64) { *v += se.Factor * (1e-5*math.Abs(*v) + 1e-6) }
	switch k := func(n int) int { return int(se.Which * float64(n)) }; se.What {
	case 0:
		change(&x.Primary[k(len(x.Primary))].V)
		wp = false
	case 1:
		change(&x.Reaction[k(len(x.Reaction))].V)
		wr = false
	case 2:
		change(&x.Curves[k(len(x.Curves))].Boundary[k(2)])
		wq = false
	case 3:
		change(&x.Curves[k(len(x.Curves))].Eval[0][1])
		wq = false
	case 4:
		x.Curves[k(len(x.Curves))].Degree++
		wq = false
	}
	c.NonTrivial(true)
	c.Label([]string{"displacement", "reaction", "boundary", "sample", "degree"}[se.What], true)
	p, r, q, err = judgeDoc()
	if err != nil {
		return err
	}
	if p != wp || r != wr || q != wq {
		return fmt.Errorf("one value changed (%v): displacements accepted %v, reactions %v, interpolations %v", se.What, p, r, q)
	}
	return nil
}
