package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/lubgr/deflect/deflect"
	"pgregory.net/rapid"
)

func init() {
	register("C24", sub("parallel", "at least three goroutines with different problems", 640, 24000, genParallel, checkParallel))
}

// Task is what one goroutine does.
type Task struct {
	Spec  *Spec
	Doc   string // built from this document if not empty
	Break string // make the problem invalid in this way
	Times int
}

type Parallel struct{ Tasks []Task }

func genParallel(t *rapid.T) *Parallel {
	n := 2 + pick(t, 5)
	p := &Parallel{}
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, 0.2) { // the same problem as another goroutine's, with objects of its own
			p.Tasks = append(p.Tasks, p.Tasks[i-1])
			continue
		}
		s := genDocSpec(t)
		if chance(t, 0.01) {
			s = genSpec(t, genOpts{maxNodes: oneOf(t, 15, 30)})
		}
		task := Task{Spec: s, Times: 1 + pick(t, 4)}
		if chance(t, 0.4) {
			task.Doc = render(t, s.tree(t))
		}
		if chance(t, 0.15) {
			task.Break = oneOf(t, "unsupported", "badLoad", "badIndex", "query", "mechanism", "duplicate", "text")
		}
		p.Tasks = append(p.Tasks, task)
	}
	return p
}

// run builds, solves and queries everything, and returns all that was seen.
func (k *Task) run() (last deflect.ProblemResult, snap *snapshot, messages []string, err error) {
	err = safely(func() error {
		for i := 0; i < k.Times; i++ {
			if k.Break == "text" && k.Doc != "" {
				if _, err := deflect.ProblemFromJSON([]byte(k.Doc + "}")); err == nil {
					return fmt.Errorf("defective document: no error")
				}
			}
			var p deflect.Problem
			if k.Doc != "" {
				parsed, err := deflect.ProblemFromJSON([]byte(k.Doc))
				if err != nil {
					return err
				}
				p = parsed
			} else {
				b, err := k.Spec.build()
				if err != nil {
					return err
				}
				p = *b.Problem
			}
			switch k.Break {
			case "unsupported":
				p.Dirichlet, p.EqTransforms = nil, nil
			case "badLoad":
				p.Neumann = append(p.Neumann, deflect.NodalValue{Index: deflect.Index{NodalID: "nowhere", Dof: deflect.Ux}, Value: 1})
			}
			if k.Break == "mechanism" { // a single prescribed value can't stop a structure from moving
				p.Dirichlet, p.EqTransforms = p.Dirichlet[:1], nil
			}
			if k.Break == "duplicate" {
				p.Dirichlet = append(p.Dirichlet, p.Dirichlet[0])
			}
			r, idx, err := solveProblem(&p)
			_ = idx
			if k.Break == "mechanism" { // refusing it is the subject of C13
				continue
			}
			if k.Break == "duplicate" {
				if err == nil {
					return fmt.Errorf("%v: no error", k.Break)
				}
				continue
			}
			if k.Break == "unsupported" || k.Break == "badLoad" {
				if err == nil {
					return fmt.Errorf("%v: no error", k.Break)
				}
				messages = append(messages, err.Error())
				continue
			}
			if err != nil {
				return err
			}
			if k.Break == "badIndex" {
				if _, err := r.Primary(deflect.Index{NodalID: "nowhere", Dof: deflect.Phix}); err == nil {
					return fmt.Errorf("unknown index has a displacement")
				} else {
					messages = append(messages, err.Error())
				}
			}
			if k.Break == "query" {
				if _, err := r.Interpolate("nowhere", deflect.FctMy, 0); err == nil {
					return fmt.Errorf("unknown element has an interpolation")
				} else {
					messages = append(messages, err.Error())
				}
			}
			r.InterpolateAll(1e-8)
			for _, e := range k.Spec.Elems {
				for _, f := range allFcts {
					ip, err := r.Interpolate(e.ID, fctOf[f], 1e-9)
					if err != nil {
						return err
					}
					_ = ip.Quantity.String()
					for _, pc := range ip.Piecewise {
						pc.Eval(0.5 * (pc.X0 + pc.XE))
						pc.Degree()
					}
				}
			}
			for _, d := range k.Spec.dofs() {
				_ = d.index().Dof.String()
			}
			now := takeSnapshot(r)
			if snap != nil {
				if err := k.same(now, snap); err != nil {
					return fmt.Errorf("differs from the same problem solved before: %w", err)
				}
			}
			snap, last = now, r
		}
		return nil
	})
	return
}

// once solves the problem and queries the result.
func (k *Task) once() *snapshot {
	b, err := k.Spec.build()
	if err != nil {
		return nil
	}
	r, _, err := solveProblem(b.Problem)
	if err != nil {
		return nil
	}
	return takeSnapshot(r)
}

// same compares what is known of two solutions. They are identical when the same operations are done in
// the same order, which isn't required when a document is the source.
func (k *Task) same(a, b *snapshot) error {
	if k.Doc == "" {
		err := a.close(b, 0)
		if err == nil || reproducible(k.once) {
			return err
		}
	}
	if a.total != b.total || a.net != b.net || len(a.primary) != len(b.primary) || len(a.reaction) != len(b.reaction) ||
		len(a.fields) != len(b.fields) {
		return fmt.Errorf("different numbers of results")
	}
	ref, err := solveRef(k.Spec)
	if err != nil {
		return nil
	}
	sc := ref.scales
	for _, d := range k.Spec.dofs() {
		i := d.index()
		if math.Abs(a.primary[i]-b.primary[i]) > 2*sc.tol(d.Dof) {
			return fmt.Errorf("displacement %v is %v, want %v", d, a.primary[i], b.primary[i])
		}
		if math.Abs(a.reaction[i]-b.reaction[i]) > 2*sc.tolR(d.Dof) {
			return fmt.Errorf("reaction %v is %v, want %v", d, a.reaction[i], b.reaction[i])
		}
	}
	for i := range k.Spec.Elems {
		e := &k.Spec.Elems[i]
		if !wideEnough(ref.byID[e.ID].breakpoints(), ref.byID[e.ID].L) {
			continue
		}
		for _, f := range kindFcts(e.Kind) {
			key := fmt.Sprintf("%q/%v", e.ID, fctOf[f])
			p, q := a.fields[key], b.fields[key]
			if len(p) == 0 || len(q) == 0 {
				return fmt.Errorf("interpolation %v missing", key)
			}
			xs := ref.byID[e.ID].breakpoints()
			for j := 1; j < len(xs); j++ {
				x := 0.5 * (xs[j-1] + xs[j])
				if v, w := evalAt(p, x), evalAt(q, x); !(math.Abs(v-w) <= 2*sc.tol(f)) {
					return fmt.Errorf("%v at %v is %v, want %v", key, x, v, w)
				}
			}
		}
	}
	return nil
}

func evalAt(p deflect.PolySequence, x float64) float64 {
	for i := range p {
		if x >= p[i].X0 && x <= p[i].XE {
			return horner(p[i].Coeff, x)
		}
	}
	return math.NaN()
}

func checkParallel(c *Ctx, p *Parallel) error {
	n := len(p.Tasks)
	c.NonTrivial(n >= 3)
	c.Label("goroutines>=5", n >= 5)
	type outcome struct {
		result   deflect.ProblemResult
		snap     *snapshot
		messages []string
		err      error
	}
	got := make([]outcome, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range p.Tasks {
		c.Label("from document", p.Tasks[i].Doc != "")
		c.Label("through the API", p.Tasks[i].Doc == "")
		c.Label("with errors", p.Tasks[i].Break != "")
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			o := &got[i]
			o.result, o.snap, o.messages, o.err = p.Tasks[i].run()
		}()
	}
	close(start)
	wg.Wait()
	for i := range p.Tasks {
		_, snap, messages, err := p.Tasks[i].run()
		g := &got[i]
		if err != nil {
			if _, no := solveRef(p.Tasks[i].Spec); no != nil {
				// Too ill-conditioned to tell if a solution is due, but not to tell that there's a difference
				if g.err == nil || p.Tasks[i].Doc == "" && g.err.Error() != err.Error() {
					return fmt.Errorf("task %v fails alone: %v, concurrently: %v", i, err, g.err)
				}
				continue
			}
			return fmt.Errorf("task %v, alone: %w", i, err)
		}
		if g.err != nil {
			return fmt.Errorf("task %v, concurrently: %w", i, g.err)
		}
		if p.Tasks[i].Doc == "" && fmt.Sprint(messages) != fmt.Sprint(g.messages) {
			return fmt.Errorf("task %v: messages %q, alone %q", i, g.messages, messages)
		}
		if (snap == nil) != (g.snap == nil) {
			return fmt.Errorf("task %v: different results alone and concurrently", i)
		}
		if snap == nil {
			continue
		}
		if err := p.Tasks[i].same(g.snap, snap); err != nil {
			return fmt.Errorf("task %v: concurrently %w", i, err)
		}
		ref, err := solveRef(p.Tasks[i].Spec)
		if err != nil {
			continue
		}
		if err := comparePrimary(c, p.Tasks[i].Spec, g.result, ref); err != nil {
			return fmt.Errorf("task %v: concurrently %w", i, err)
		}
		if err := compareReactions(c, p.Tasks[i].Spec, g.result, ref); err != nil {
			return fmt.Errorf("task %v: concurrently %w", i, err)
		}
	}
	return nil
}
