package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/google/go-jsonnet"
	"github.com/lubgr/deflect/integr"
	"pgregory.net/rapid"
)

func init() {
	register("C27",
		sub("problems", "structure with element loads, hinges, or inclined supports", 12000, 300000, genNetProblem, checkNetProblem),
		sub("expectations", "at least two expectations", 6000, 200000, genNetExpect, checkNetExpect))
}

const libraryDir = "/repo/integr"

var (
	vm     *jsonnet.VM
	vmUses int
)

func evaluate(code string) (string, error) {
	if vmUses++; vm == nil || vmUses%500 == 0 {
		vm = jsonnet.MakeVM()
		vm.Importer(&jsonnet.FileImporter{JPaths: []string{libraryDir}})
	}
	return vm.EvaluateAnonymousSnippet("case.jsonnet", code)
}

func netNum(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

func netStr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func netNums(vs ...float64) string {
	var out []string
	for _, v := range vs {
		out = append(out, netNum(v))
	}
	return "[" + strings.Join(out, ", ") + "]"
}

type arg struct{ name, val, def string }

// call writes a call of a helper with positional and named arguments, and defaults omitted at times.
func call(t *rapid.T, fct string, args ...arg) string {
	var out []string
	positional := true
	start := 0
	if chance(t, 0.5) {
		start = pick(t, len(args)+1) // named from here
	} else {
		start = len(args)
	}
	for i, a := range args {
		if a.def != "" && a.val == a.def && chance(t, 0.8) {
			positional = false // what follows needs its name
			continue
		}
		if i >= start {
			positional = false
		}
		if positional {
			out = append(out, a.val)
		} else {
			out = append(out, a.name+"="+a.val)
		}
	}
	if !positional && len(out) > 1 && chance(t, 0.3) {
		// Named arguments may come in any order
		k := len(out) - 1
		if strings.Contains(out[k-1], "=") && strings.Contains(out[k], "=") && isNamed(out[k-1]) && isNamed(out[k]) {
			out[k], out[k-1] = out[k-1], out[k]
		}
	}
	return fct + "(" + strings.Join(out, ", ") + ")"
}

func isNamed(s string) bool {
	k := strings.IndexByte(s, '=')
	if k <= 0 {
		return false
	}
	for _, r := range s[:k] {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return true
}

// NetProblem is a structure and a jsonnet program that describes it.
type NetProblem struct {
	Spec *Spec
	Code string
}

func genNetProblem(t *rapid.T) *NetProblem {
	s := genDocSpec(t)
	for i := range s.CSs {
		if s.CSs[i].Kind == "constants" {
			s.CSs[i].P[3] = 0
		}
	}
	return &NetProblem{s, s.jsonnet(t)}
}

func angleCode(v float64) string {
	for _, k := range []struct {
		c string
		v float64
	}{{"bvp.pi / 4", math.Pi / 4}, {"bvp.pi / 6", math.Pi / 6}, {"bvp.pi / 2", math.Pi / 2}, {"-bvp.pi / 3", -math.Pi / 3}, {"bvp.pi", math.Pi}} {
		if k.v == v {
			return k.c
		}
	}
	return netNum(v)
}

func (s *Spec) jsonnet(t *rapid.T) string {
	var b strings.Builder
	name := oneOf(t, "bvp", "b", "lib")
	fmt.Fprintf(&b, "local bvp = import 'bvp.libsonnet';\nlocal %v = bvp;\n", map[bool]string{true: "lib", false: name}[name == "bvp"])
	h := func(n string) string { return name + "." + n }
	b.WriteString("{\n  nodes: {\n")
	for _, n := range s.Nodes {
		fmt.Fprintf(&b, "    %v: %v,\n", netStr(n.ID), netNums(n.X, n.Y, n.Z))
	}
	b.WriteString("  },\n  material: {}")
	for _, m := range s.Mats {
		fmt.Fprintf(&b, " + %v", call(t, h("LinElast"), arg{"id", netStr(m.ID), ""}, arg{"E", netNum(m.E), ""}, arg{"nu", netNum(m.Nu), ""},
			arg{"rho", netNum(m.Rho), ""}))
	}
	b.WriteString(",\n  crosssection: {}")
	for _, c := range s.CSs {
		if c.Kind == "rectangle" {
			fmt.Fprintf(&b, " + %v", call(t, h("Rectangle"), arg{"id", netStr(c.ID), ""}, arg{"b", netNum(c.P[0]), ""}, arg{"h", netNum(c.P[1]), ""},
				arg{"roll", netNum(c.P[2]), "0"}))
		} else {
			fmt.Fprintf(&b, " + %v", call(t, h("Generic"), arg{"id", netStr(c.ID), ""}, arg{"A", netNum(c.P[0]), ""}, arg{"Iyy", netNum(c.P[1]), ""},
				arg{"Izz", netNum(c.P[2]), ""}, arg{"roll", netNum(c.P[4]), "0"}))
		}
	}
	b.WriteString(",\n  elements: {\n")
	for i := range s.Elems {
		e := &s.Elems[i]
		nodes := fmt.Sprintf("[%v, %v]", netStr(e.N0), netStr(e.N1))
		if inferable(e) && chance(t, 0.6) {
			nodes = "[]"
		}
		hinges := "{}"
		if len(e.Hinges) > 0 {
			at := map[int][]string{}
			for _, x := range e.Hinges {
				at[x.End] = append(at[x.End], netStr(x.Dof))
			}
			var parts []string
			for end, id := range []string{e.N0, e.N1} {
				if len(at[end]) > 0 {
					parts = append(parts, fmt.Sprintf("%v: [%v]", netStr(id), strings.Join(at[end], ", ")))
				}
			}
			hinges = "{ " + strings.Join(parts, ", ") + " }"
		}
		mat, cs := netStr(e.Mat), netStr(e.CS)
		if len(s.Mats) == 1 && chance(t, 0.6) {
			mat = "null"
		}
		if len(s.CSs) == 1 && chance(t, 0.6) {
			cs = "null"
		}
		kind := strings.ToUpper(e.Kind[:1]) + e.Kind[1:]
		fmt.Fprintf(&b, "    %v: %v,\n", netStr(e.ID), call(t, h(kind), arg{"nodes", nodes, "[]"}, arg{"hinges", hinges, "{}"},
			arg{"material", mat, "null"}, arg{"cs", cs, "null"}))
	}
	b.WriteString("  },\n")
	at := func(key string, add func(put func(id, code string))) {
		var order []string
		codes := map[string][]string{}
		add(func(id, code string) {
			if codes[id] == nil {
				order = append(order, id)
			}
			codes[id] = append(codes[id], code)
		})
		fmt.Fprintf(&b, "  %v: {\n", key)
		for _, id := range order {
			fmt.Fprintf(&b, "    %v: %v,\n", netStr(id), strings.Join(codes[id], " + "))
		}
		b.WriteString("  },\n")
	}
	at("dirichlet", func(put func(id, code string)) {
		for _, d := range s.Dirichlet {
			put(d.Node, call(t, h(d.Dof), arg{"value", netNum(d.V), "0"}))
		}
	})
	at("links", func(put func(id, code string)) {
		for _, l := range s.Links {
			switch l.From + l.To {
			case "UxUz", "UxUy", "UyUz":
				code := call(t, h("InclinedSupport"+l.From+l.To), arg{"angle", angleCode(l.Angle), ""})
				put(l.Node, code)
			default:
				put(l.Node, fmt.Sprintf("[{ from: '%v', to: '%v', angle: %v }]", l.From, l.To, angleCode(l.Angle)))
			}
		}
	})
	at("neumann", func(put func(id, code string)) {
		for _, n := range s.Neumann {
			put(n.Node, call(t, h(loadNames[n.Dof][0]), arg{"value", netNum(n.V), ""}, arg{"x", "null", "null"}))
		}
		for _, e := range s.Elems {
			for _, l := range e.Loads {
				switch l.Type {
				case "dirac":
					put(e.ID, call(t, h(loadNames[l.Kind][0]), arg{"value", netNum(l.V0), ""}, arg{"x", netNum(l.Pos), "null"}))
				case "constant":
					put(e.ID, call(t, h(loadNames[l.Kind][1]), arg{"values", netNum(l.V0), ""}, arg{"x", "null", "null"}))
				default:
					put(e.ID, call(t, h(loadNames[l.Kind][1]), arg{"values", netNums(l.V0, l.V1), ""}, arg{"x", "null", "null"}))
				}
			}
		}
	})
	b.WriteString("}\n")
	return b.String()
}

func checkNetProblem(c *Ctx, p *NetProblem) error {
	doc, err := evaluate(p.Code)
	if err != nil {
		return fmt.Errorf("evaluation fails: %w\n%v", err, p.Code)
	}
	for _, e := range p.Spec.Elems {
		c.NonTrivial(len(e.Loads)+len(e.Hinges) > 0)
	}
	c.NonTrivial(len(p.Spec.Links) > 0)
	if err := compareDoc(c, p.Spec, doc); err != nil {
		return fmt.Errorf("%w\n%v", err, p.Code)
	}
	// Values that have no influence on the results of 2d structures
	var got struct {
		Material     map[string]struct{ Parameter map[string]float64 }
		Crosssection map[string]struct{ Parameter map[string]float64 }
	}
	if err := json.Unmarshal([]byte(doc), &got); err != nil {
		return err
	}
	for _, m := range p.Spec.Mats {
		g := got.Material[m.ID].Parameter
		if g["E"] != m.E || g["nu"] != m.Nu || g["rho"] != m.Rho {
			return fmt.Errorf("material %q is %v, want %v\n%v", m.ID, g, m, p.Code)
		}
	}
	for _, cs := range p.Spec.CSs {
		g := got.Crosssection[cs.ID].Parameter
		keys := []string{"b", "h", "roll"}
		if cs.Kind == "constants" {
			keys = []string{"A", "Iyy", "Izz", "Ixx", "roll"}
		}
		for i, k := range keys {
			if g[k] != cs.P[i] {
				return fmt.Errorf("section %q has %v %v, want %v\n%v", cs.ID, k, g[k], cs.P[i], p.Code)
			}
		}
	}
	return nil
}

// NetExpect is a jsonnet program that describes expectations, and what it describes.
type NetExpect struct {
	X    *Expect
	Code string
}

func genNetExpect(t *rapid.T) *NetExpect {
	x := genExpect(t)
	x.Doc = ""
	for i := range x.Curves {
		e := &x.Curves[i]
		switch e.Degree {
		case 0:
			e.Eval = nil
			if len(e.Boundary) == 0 {
				e.Boundary = []float64{1}
			}
			e.Boundary = e.Boundary[:1]
		case 1:
			e.Eval = nil
			for len(e.Boundary) < 2 {
				e.Boundary = append(e.Boundary, 2)
			}
		default:
			e.Boundary = nil
		}
	}
	return &NetExpect{x, x.jsonnet(t)}
}

func (x *Expect) jsonnet(t *rapid.T) string {
	var b strings.Builder
	b.WriteString("local test = import 'test.libsonnet';\n{\n  name: 'x',\n  expected: {\n    tolerance: {")
	for _, k := range []struct {
		n string
		v *float64
	}{{"primary", x.TolPrimary}, {"reaction", x.TolReaction}, {"polynomial", x.TolPoly}} {
		if k.v != nil {
			fmt.Fprintf(&b, " %v: %v,", k.n, netNum(*k.v))
		}
	}
	b.WriteString(" },\n")
	nodal := func(key string, vs []NV) {
		fmt.Fprintf(&b, "    %v: {\n", key)
		var order []string
		codes := map[string][]string{}
		for _, v := range vs {
			if codes[v.Node] == nil {
				order = append(order, v.Node)
			}
			def := ""
			args := []arg{}
			if key == "primary" {
				def = "0"
				args = append(args, arg{"value", netNum(v.V), def})
			} else {
				args = append(args, arg{"value", netNum(v.V), ""}, arg{"x", "null", "null"})
			}
			codes[v.Node] = append(codes[v.Node], call(t, "test."+v.Name, args...))
		}
		for _, id := range order {
			fmt.Fprintf(&b, "      %v: %v,\n", netStr(id), strings.Join(codes[id], " + "))
		}
		b.WriteString("    },\n")
	}
	nodal("primary", x.Primary)
	nodal("reaction", x.Reaction)
	b.WriteString("    interpolation: {\n")
	var order []string
	codes := map[string][]string{}
	for i := range x.Curves {
		e := &x.Curves[i]
		if codes[e.Elem] == nil {
			order = append(order, e.Elem)
		}
		rng := "null"
		if len(e.Range) > 0 {
			rng = netNums(e.Range...)
		}
		kind, r := arg{"kind", netStr(e.Kind), ""}, arg{"range", rng, "null"}
		code := ""
		switch {
		case e.Degree == 0:
			code = call(t, "test.Constant", kind, arg{"value", netNum(e.Boundary[0]), ""}, r)
		case e.Degree == 1:
			code = call(t, "test.Linear", kind, arg{"first", netNum(e.Boundary[0]), ""}, arg{"second", netNum(e.Boundary[1]), ""}, r)
		case e.Degree >= 2 && e.Degree <= 5:
			eval := "null"
			if len(e.Eval) > 0 {
				var ps []string
				for _, s := range e.Eval {
					ps = append(ps, netNums(s...))
				}
				eval = "[" + strings.Join(ps, ", ") + "]"
			}
			if chance(t, 0.4) {
				// Samples of a function
				n := 1 + pick(t, 5)
				x0 := oneOf(t, 0.0, between(t, 0, 2))
				xE := x0 + between(t, 0.1, 3)
				if len(e.Range) > 0 && chance(t, 0.7) {
					x0, xE = e.Range[0], e.Range[1]
				}
				c0, c1, c2 := genValue(t), genValue(t), genValue(t)
				if o := (fake{&x.Results[0]}).find(e.Elem, e.Kind); o != nil && chance(t, 0.7) {
					for _, p := range o.Pieces {
						if len(e.Range) == 0 || p.X0 == e.Range[0] {
							if len(p.C) == 3 {
								c0, c1, c2 = p.C[0], p.C[1], p.C[2]
							}
							if len(e.Range) == 0 {
								x0, xE = p.X0, p.XE
							}
						}
					}
				}
				e.Eval = nil
				for k := 0; k <= n; k++ {
					xx := x0 + float64(k)*(xE-x0)/float64(n)
					e.Eval = append(e.Eval, []float64{xx, c0 + xx*(c1+xx*c2)})
				}
				eval = call(t, "test.Samples", arg{"f", fmt.Sprintf("function(x) %v + x * (%v + x * %v)", netNum(c0), netNum(c1), netNum(c2)), ""},
					arg{"x0", netNum(x0), ""}, arg{"xE", netNum(xE), ""}, arg{"n", fmt.Sprint(n), ""})
			}
			code = call(t, "test."+[]string{"Quadratic", "Cubic", "Quartic", "Quintic"}[e.Degree-2], kind, arg{"eval", eval, "null"}, r)
		default:
			w := &writer{}
			o := (&jobj{}).set("kind", e.Kind).set("degree", jraw(fmt.Sprint(e.Degree)))
			if len(e.Range) > 0 {
				o.set("range", nums(e.Range...))
			}
			e.Eval, e.Boundary = nil, nil
			w.value([]any{o})
			code = w.b.String()
		}
		codes[e.Elem] = append(codes[e.Elem], code)
	}
	for _, id := range order {
		fmt.Fprintf(&b, "      %v: %v,\n", netStr(id), strings.Join(codes[id], " + "))
	}
	b.WriteString("    },\n")
	if x.Failure != nil {
		fmt.Fprintf(&b, "    failure: %v,\n", netStr(*x.Failure))
	}
	b.WriteString("  },\n}\n")
	return b.String()
}

func checkNetExpect(c *Ctx, n *NetExpect) error {
	doc, err := evaluate(n.Code)
	if err != nil {
		return fmt.Errorf("evaluation fails: %w\n%v", err, n.Code)
	}
	exps, err := integr.ExpectationsFromJSON([]byte(doc))
	if err != nil {
		return fmt.Errorf("expectations refused: %w\n%v", err, n.Code)
	}
	if err := judgeAll(c, n.X, exps); err != nil {
		return fmt.Errorf("%w\n%v\n%v", err, n.Code, doc)
	}
	return nil
}
