package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Trees of JSON values, as far as needed to write documents: *jobj, []any, string, float64, bool, nil, jraw.

type jraw string

type jpair struct {
	key string
	val any
}

type jobj struct{ pairs []jpair }

func (o *jobj) set(key string, val any) *jobj {
	for i := range o.pairs {
		if o.pairs[i].key == key {
			o.pairs[i].val = val
			return o
		}
	}
	o.pairs = append(o.pairs, jpair{key, val})
	return o
}

func (o *jobj) get(key string) any {
	for i := range o.pairs {
		if o.pairs[i].key == key {
			return o.pairs[i].val
		}
	}
	return nil
}

func (o *jobj) has(key string) bool {
	for i := range o.pairs {
		if o.pairs[i].key == key {
			return true
		}
	}
	return false
}

func (o *jobj) sub(key string) *jobj {
	if v, ok := o.get(key).(*jobj); ok {
		return v
	}
	v := &jobj{}
	o.set(key, v)
	return v
}

func (o *jobj) del(key string) {
	for i := range o.pairs {
		if o.pairs[i].key == key {
			o.pairs = append(o.pairs[:i:i], o.pairs[i+1:]...)
			return
		}
	}
}

func (o *jobj) appendTo(key string, v any) {
	arr, _ := o.get(key).([]any)
	o.set(key, append(arr[:len(arr):len(arr)], v))
}

// writer renders trees. With t == nil the canonical form is written.
type writer struct {
	t       *rapid.T
	b       strings.Builder
	spaced  bool
	escaped bool
	numbers bool
	shuffle bool
}

func (w *writer) chance(p float64) bool { return w.t != nil && chance(w.t, p) }

func (w *writer) space() {
	if !w.spaced || !w.chance(0.25) {
		return
	}
	w.b.WriteString([]string{" ", "\n", "\t", "\r\n", "   "}[pick(w.t, 5)])
}

func (w *writer) str(s string) {
	w.b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			w.b.WriteByte('\\')
			w.b.WriteRune(r)
		case r == '\t' && w.chance(0.5):
			w.b.WriteString(`\t`)
		case r == '/' && w.escaped && w.chance(0.3):
			w.b.WriteString(`\/`)
		case r < 0x20 || (w.escaped && w.chance(0.25)):
			if r >= 0x10000 {
				a, b := utf16.EncodeRune(r)
				fmt.Fprintf(&w.b, `\u%04x\u%04X`, a, b)
			} else if w.chance(0.5) {
				fmt.Fprintf(&w.b, `\u%04X`, r)
			} else {
				fmt.Fprintf(&w.b, `\u%04x`, r)
			}
		default:
			w.b.WriteRune(r)
		}
	}
	w.b.WriteByte('"')
}

// num writes a number in one of many notations that denote exactly the same value.
func (w *writer) num(v float64) {
	plain := strconv.FormatFloat(v, 'g', -1, 64)
	if !w.numbers || !w.chance(0.4) {
		w.b.WriteString(plain)
		return
	}
	var s string
	switch pick(w.t, 6) {
	case 0:
		s = strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(v, 'E', -1, 64)
	case 2:
		s = strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		} else {
			s += "000"
		}
	case 3: // digits with a shifted exponent
		s = strconv.FormatFloat(v, 'e', -1, 64)
		k := strings.IndexByte(s, 'e')
		exp, _ := strconv.Atoi(s[k+1:])
		mant := s[:k]
		if !strings.Contains(mant, ".") {
			mant += ".0"
		}
		neg := strings.HasPrefix(mant, "-")
		mant = strings.TrimPrefix(mant, "-")
		digits := strings.Replace(mant, ".", "", 1)
		s = "0." + digits + "e" + strconv.Itoa(exp+1)
		if pick(w.t, 2) == 1 {
			s = strings.TrimLeft(digits, "0")
			if s == "" {
				s = "0"
			}
			e := exp - (len(digits) - 1)
			if e >= 0 {
				s += "E+" + strconv.Itoa(e)
			} else {
				s += "E" + strconv.Itoa(e)
			}
		}
		if neg {
			s = "-" + s
		}
	case 4:
		s = strconv.FormatFloat(v, 'e', 25, 64) // more digits than needed
	case 5:
		s = plain
		if v == 0 {
			s = []string{"0", "-0", "0.0", "0e5", "-0.0E-3", "0.000"}[pick(w.t, 6)]
		}
	}
	if back, err := strconv.ParseFloat(s, 64); err != nil || back != v {
		s = plain
	}
	w.b.WriteString(s)
}

func (w *writer) value(v any) {
	switch x := v.(type) {
	case nil:
		w.b.WriteString("null")
	case jraw:
		w.b.WriteString(string(x))
	case bool:
		fmt.Fprint(&w.b, x)
	case string:
		w.str(x)
	case float64:
		w.num(x)
	case int:
		w.num(float64(x))
	case []any:
		w.b.WriteByte('[')
		w.space()
		for i, y := range x {
			if i > 0 {
				w.b.WriteByte(',')
				w.space()
			}
			w.value(y)
			w.space()
		}
		w.b.WriteByte(']')
	case *jobj:
		order := make([]int, len(x.pairs))
		for i := range order {
			order[i] = i
		}
		if w.shuffle && w.t != nil {
			for i := len(order) - 1; i > 0; i-- {
				k := pick(w.t, i+1)
				order[i], order[k] = order[k], order[i]
			}
		}
		w.b.WriteByte('{')
		w.space()
		for i, k := range order {
			if i > 0 {
				w.b.WriteByte(',')
				w.space()
			}
			w.str(x.pairs[k].key)
			w.space()
			w.b.WriteByte(':')
			w.space()
			w.value(x.pairs[k].val)
			w.space()
		}
		w.b.WriteByte('}')
	default:
		panic(fmt.Sprintf("unknown JSON value %T", v))
	}
}

func render(t *rapid.T, v any) string {
	w := &writer{t: t}
	if t != nil {
		w.spaced, w.escaped, w.numbers, w.shuffle = chance(t, 0.6), chance(t, 0.5), chance(t, 0.6), chance(t, 0.7)
	}
	w.space()
	w.value(v)
	w.space()
	s := w.b.String()
	if !utf8.ValidString(s) {
		panic("invalid UTF-8 in document")
	}
	return s
}

var loadNames = map[string][2]string{
	"Ux": {"Fx", "qx"}, "Uy": {"Fy", "qy"}, "Uz": {"Fz", "qz"},
	"Phix": {"Mx", "mx"}, "Phiy": {"My", "my"}, "Phiz": {"Mz", "mz"},
}

func nums(vs ...float64) []any {
	var out []any
	for _, v := range vs {
		out = append(out, v)
	}
	return out
}

// tree describes a Spec as a JSON tree. With t != nil the documented freedom of the format is used.
func (s *Spec) tree(t *rapid.T) *jobj {
	may := func(p float64) bool { return t != nil && chance(t, p) }
	doc := &jobj{}
	nodes := doc.sub("nodes")
	for _, n := range s.Nodes {
		nodes.set(n.ID, nums(n.X, n.Y, n.Z))
	}
	mats := doc.sub("material")
	for _, m := range s.Mats {
		o := &jobj{}
		o.set("kind", "linelast")
		o.set("parameter", (&jobj{}).set("E", m.E).set("nu", m.Nu).set("rho", m.Rho))
		if may(0.04) {
			o.sub("parameter").set(oneOf(t, "G", "alpha", "A", "x"), oneOf(t, 0, 1.5, -2))
		}
		if may(0.06) {
			unrelated(t, o)
		}
		mats.set(m.ID, o)
	}
	css := doc.sub("crosssection")
	for _, c := range s.CSs {
		o := &jobj{}
		o.set("kind", c.Kind)
		p := o.sub("parameter")
		names := []string{"b", "h", "roll"}
		if c.Kind == "constants" {
			names = []string{"A", "Iyy", "Izz", "Ixx", "roll"}
		}
		for i, n := range names {
			if (n == "roll" || n == "Ixx") && c.P[i] == 0 && may(0.6) {
				continue
			}
			p.set(n, c.P[i])
		}
		if may(0.04) { // means nothing for this kind of section
			if c.Kind == "constants" {
				p.set(oneOf(t, "b", "h", "t"), oneOf(t, 0.3, 2, -1))
			} else {
				p.set(oneOf(t, "A", "Iyy", "Izz", "Ixx", "t"), c.A()*oneOf(t, 0.3, 2, -1))
			}
		}
		if may(0.06) {
			unrelated(t, o)
		}
		css.set(c.ID, o)
	}
	elems := doc.sub("elements")
	for i := range s.Elems {
		e := &s.Elems[i]
		o := &jobj{}
		o.set("kind", e.Kind)
		if inferable(e) && may(0.7) {
			if may(0.3) {
				o.set("nodes", []any{})
			}
		} else {
			o.set("nodes", []any{e.N0, e.N1})
		}
		single := func(key, id string, n int) {
			if n == 1 && may(0.7) {
				if may(0.2) {
					o.set(key, "")
				}
				return
			}
			o.set(key, id)
		}
		single("material", e.Mat, len(s.Mats))
		single("cs", e.CS, len(s.CSs))
		if len(e.Hinges) > 0 {
			h := o.sub("hinges")
			for _, hinge := range e.Hinges {
				id := e.N0
				if hinge.End == 1 {
					id = e.N1
				}
				h.appendTo(id, hinge.Dof)
			}
			if may(0.1) {
				for _, id := range []string{e.N0, e.N1} {
					if !h.has(id) {
						h.set(id, []any{})
					}
				}
			}
		} else if may(0.1) {
			o.set("hinges", &jobj{})
		} else if may(0.1) {
			o.set("hinges", (&jobj{}).set(e.N0, []any{}))
		}
		if may(0.08) {
			unrelated(t, o)
		}
		elems.set(e.ID, o)
	}
	values := func(key string, bcs []BC, name func(string) string) {
		m := doc.sub(key)
		for _, b := range bcs {
			dof := name(b.Dof)
			arr, _ := m.get(b.Node).([]any)
			if len(arr) > 0 && may(0.5) {
				if last, ok := arr[len(arr)-1].(*jobj); ok && !last.has(dof) {
					last.set(dof, b.V)
					continue
				}
			}
			m.appendTo(b.Node, (&jobj{}).set(dof, b.V))
		}
	}
	values("dirichlet", s.Dirichlet, func(d string) string { return d })
	values("neumann", s.Neumann, func(d string) string { return loadNames[d][0] })
	nm := doc.sub("neumann")
	for i := range s.Elems {
		for _, l := range s.Elems[i].Loads {
			o := &jobj{}
			name := loadNames[l.Kind][1]
			if l.Type == "dirac" {
				name = loadNames[l.Kind][0]
			}
			o.set("kind", name)
			o.set("degree", l.Type)
			switch l.Type {
			case "dirac":
				o.set("values", nums(l.V0))
				o.set("position", nums(l.Pos))
			case "constant":
				o.set("values", nums(l.V0))
			default:
				o.set("values", nums(l.V0, l.V1))
			}
			if l.Type != "dirac" && may(0.1) {
				o.set("position", []any{})
			}
			if may(0.08) {
				unrelated(t, o)
			}
			nm.appendTo(s.Elems[i].ID, o)
		}
	}
	links := doc.sub("links")
	for _, l := range s.Links {
		o := (&jobj{}).set("from", l.From).set("to", l.To).set("angle", l.Angle)
		if may(0.08) {
			unrelated(t, o)
		}
		links.appendTo(l.Node, o)
	}
	if t == nil {
		return doc
	}
	for _, n := range s.Nodes {
		if may(0.05) && !nm.has(n.ID) {
			nm.set(n.ID, []any{})
		}
		if may(0.05) && !links.has(n.ID) {
			links.set(n.ID, []any{})
		}
		d := doc.sub("dirichlet")
		if may(0.05) && !d.has(n.ID) {
			d.set(n.ID, oneOf(t, []any{}, []any{&jobj{}}))
		}
	}
	for _, key := range []string{"links", "neumann", "dirichlet"} {
		if len(doc.sub(key).pairs) == 0 && may(0.7) {
			doc.del(key)
			if may(0.2) {
				doc.set(key, nil)
			}
		}
	}
	if may(0.3) {
		doc.set("name", "a problem \"with\" a name")
	}
	if may(0.3) {
		doc.set("description", "…")
	}
	if may(0.2) {
		doc.set("expected", (&jobj{}).set("primary", &jobj{}))
	}
	if may(0.1) {
		unrelated(t, doc)
	}
	if may(0.1) {
		doc.set("solver", []any{"x", nil, 1.0, true})
	}
	return doc
}

// unrelated adds a field that means nothing to an object.
func unrelated(t *rapid.T, o *jobj) {
	words := []string{"comment", "name", "id", "description", "color", "label", "type", "length", "unit", "tag", "group", "$ref", "_", "x", "weight", "E", "A", "Ux", "Fz"}
	for range 1 + pick(t, 2) {
		if key := words[pick(t, len(words))]; !o.has(key) {
			o.set(key, oneOf[any](t, "unrelated", "", 3.5, -1.0, 1e300, true, nil, []any{}, []any{1.0, "x"}, &jobj{}, (&jobj{}).set("kind", "frame2d").set("values", nums(7))))
		}
	}
}

// inferable is true when the nodes of an element follow from its name.
func inferable(e *Elem) bool {
	return e.ID == e.N0+e.N1 && utf8.RuneCountInString(e.ID) == 2 && utf8.RuneCountInString(e.N0) == 1
}

// renameForInference gives elements two-character names where that is possible.
func renameForInference(t *rapid.T, s *Spec) {
	used := map[string]bool{}
	for i := range s.Elems {
		used[s.Elems[i].ID] = true
	}
	for i := range s.Elems {
		e := &s.Elems[i]
		if id := e.N0 + e.N1; utf8.RuneCountInString(id) == 2 && utf8.RuneCountInString(e.N0) == 1 && !used[id] && chance(t, 0.8) {
			e.ID = id
			used[id] = true
		}
	}
}

// misleadingNames renames elements such that their names suggest other nodes, or another order of their nodes. It returns
// the new names by the old ones.
func misleadingNames(t *rapid.T, s *Spec) map[string]string {
	used := map[string]bool{}
	for i := range s.Elems {
		used[s.Elems[i].ID] = true
	}
	out := map[string]string{}
	for i := range s.Elems {
		e := &s.Elems[i]
		id := e.N1 + e.N0
		if chance(t, 0.4) {
			id = s.Nodes[pick(t, len(s.Nodes))].ID + s.Nodes[pick(t, len(s.Nodes))].ID
		}
		if used[id] || chance(t, 0.3) {
			continue
		}
		used[id] = true
		out[e.ID] = id
		e.ID = id
	}
	return out
}

// reduceCatalogue leaves a single material and/or section in many cases.
func reduceCatalogue(t *rapid.T, s *Spec) {
	if chance(t, 0.5) {
		s.Mats = s.Mats[:1]
		for i := range s.Elems {
			s.Elems[i].Mat = s.Mats[0].ID
		}
	}
	if chance(t, 0.5) {
		s.CSs = s.CSs[:1]
		for i := range s.Elems {
			s.Elems[i].CS = s.CSs[0].ID
		}
	}
}

func finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }
