From 08b32a5a0e01c56bc7e190ab1307142331d2ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/24] fix: apply the prescribed-displacement correction
 whenever a Dirichlet value is non-zero

The check was inverted: the k21*d1 term was skipped exactly when all prescribed
values were non-zero, so that e.g. a lifted rigid structure came out wrong.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From 82d7c50d4d5da50d8d75153c44b281dc6ade26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 02/24] fix: report evaluation of a polynomial beyond the end
 of its domain

---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From 484320ae52a71117c32347f446afb03a5919aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/24] fix: remove loads from frames

Frames delegate loads to their truss and beam parts, but removal only looked at
the (always empty) list of the frame itself.
---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 77a1002f4abf4a30a40c093435d56a558adffedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 04/24] fix: decouple results from the solver's buffers

A result shared its vectors with the solver, and was silently overwritten (or
cleared) when the same solver instance was used again.
---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..a46af0c 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -99,8 +99,8 @@ func (s *linearSolver) Solve(
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(s.eqn.d), // The solver's buffers are re-used by subsequent solves
+		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From 428faf15b48c10d935604d2c23180678374b81d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/24] fix: size the scratch buffers of an inclined support
 for the current system

Using the same object in a larger system caused an out-of-bounds panic.
---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From ccbc070912b7c823d898c94332e70f876eab946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 06/24] fix: revert equation transformations in reverse order

Two inclined supports at the same node of a 3d truss share a degree of freedom, so
that their transformations do not commute.
---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index a46af0c..f7e4aac 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,8 +90,9 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// Undo the transformations in reverse order, it matters when they share degrees of freedom
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From 3ec77b33f3f91262d8f6176fd46c9a190f8be4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 07/24] fix: do not report applied loads as reactions

At unconstrained degrees of freedom the applied load showed up as a reaction, and at
inclined supports the load's component in the sliding direction was mixed into the
support's reaction.
---
 deflect/linear_bvp_solver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index f7e4aac..3033b5e 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,6 +90,11 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
+	// There is no reaction in the direction of unconstrained degrees of freedom. What is stored there
+	// is the applied load, and must not leak into reactions (in particular not through the following
+	// transformations).
+	r2.Zero()
+
 	// Undo the transformations in reverse order, it matters when they share degrees of freedom
 	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
 		p.EqTransforms[i].Post(indices, r, d)
-- 
2.43.0


From c1aab3ebec47c51a294ca13317312da1e22da08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 08/24] fix: report lookup failures of elements and inclined
 supports

EqLayout is passed by value to elements and transformers, so the failures they
collected in their copy were lost. E.g. an inclined support referring to a degree of
freedom that doesn't exist silently acted on the first row of the system instead.
---
 deflect/eq_layout.go         | 26 ++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..f55740f 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,13 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// Layouts are passed by value, but copies must report their failed lookups to the origin.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +64,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +80,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +98,9 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if el.lookupFailures != nil {
+		*el.lookupFailures = lookupFailures{}
+	}
 
 	return failure
 }
@@ -103,7 +113,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 3033b5e..dd8be2c 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -30,6 +30,9 @@ func (s *linearSolver) Solve(
 	indices EqLayout,
 	strategy EquationSolver,
 ) (ProblemResult, error) {
+	// Collect lookup failures of this very solve, unaffected by previous or concurrent uses of indices
+	indices.lookupFailures = &lookupFailures{}
+
 	if err := s.initialise(indices.eqSize(), len(p.Dirichlet)); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ab540d704284504a2ead9f17f498eb2fa5722194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 09/24] fix: return an error when solving without any Dirichlet
 boundary condition

This panicked, since there are no matrices of zero size.
---
 deflect/linear_bvp_solver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index dd8be2c..8cb66e9 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -116,7 +117,9 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	if constrained == 0 {
+		return errors.New("no Dirichlet BC given, the system can't be solved")
+	} else if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
 	}
 
-- 
2.43.0


From c3ead0a2a57f07824c5e93d509965629051ab7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 10/24] fix: reject a negative roll angle of a cross section
 given by constants

This is documented to be an error, and is one for rectangular cross sections.
---
 deflect/cross_sections.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..7e81689 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -45,6 +45,9 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 	if cs.ixx < 0 {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section roll angle %v", cs.roll))
+	}
 
 	return &cs, err
 }
-- 
2.43.0


From 23b4c3a61e0b3f405fa5d71cff9278604bafa4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 11/24] fix: do not accept unknown kinds of loads on trusses

Anything that isn't one of the known element loads was reported as applied, but had
no effect.
---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From ad6d8dc3f4cd65cb92ebdff1700ba5f7bc780b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 12/24] fix: reject concentrated loads beyond the end of an
 element

The consistent nodal loads and the interpolation are meaningless for such a load.
---
 deflect/beam2d.go          | 4 +++-
 deflect/one_dim_element.go | 6 ++++++
 deflect/truss2d.go         | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..da88e9d 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -180,7 +180,9 @@ func (b *beam2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(l *neumannConcentrated) { supported = l.kind == Uz || l.kind == Phiy },
+		func(l *neumannConcentrated) {
+			supported = (l.kind == Uz || l.kind == Phiy) && b.spans(l.position)
+		},
 		func(l *neumannConstant) { supported = l.kind == Uz },
 		func(l *neumannLinear) { supported = l.kind == Uz })
 
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..13f05b8 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -45,6 +45,12 @@ func (e *oneDimElement) RemoveLoad(bc NeumannElementBC) {
 	}
 }
 
+// spans determines if the position on the local x-axis is on the element. Since positions at the end
+// of an element are usually the result of some computation, this allows for a rounding error.
+func (e *oneDimElement) spans(position float64) bool {
+	return position <= length(e.n0, e.n1)*(1+1e-10)
+}
+
 func (e *oneDimElement) NumNodes() uint {
 	return 2
 }
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index b708a4f..5042bbf 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -125,7 +125,7 @@ func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConcentrated) { supported = load.kind == Ux && t.spans(load.position) },
 		func(load *neumannConstant) { supported = load.kind == Ux },
 		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
-- 
2.43.0


From 5770ccfa4d1bfdb21c1ce62b476de61ec6937aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 13/24] fix: infer nodes from two-character element names
 beyond ASCII

---
 deflect/problem_from_json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..3ee3939 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -250,14 +250,16 @@ func determineNodes(
 		return nil, nil, fmt.Errorf("expected node ID slice of length 0 or 2, got %v IDs", len(nodeIDs))
 	}
 
-	if len(elmtID) != 2 {
+	chars := []rune(elmtID)
+
+	if len(chars) != 2 {
 		return nil, nil, fmt.Errorf(
 			"can't infer connected node IDs from element ID '%v' (need 2 chars)",
 			elmtID,
 		)
 	}
 
-	n0, n1 := string(elmtID[0]), string(elmtID[1])
+	n0, n1 := string(chars[0]), string(chars[1])
 	return determineNodes(elmtID, []string{n0, n1}, nodes)
 }
 
-- 
2.43.0


From c7f07bfb0a622bc2aefe3306c0c68db4c679d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 14/24] fix: reject an inclined support that links a degree of
 freedom with itself

It silently produced wrong results.
---
 deflect/problem_from_json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 3ee3939..31046ec 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -562,6 +562,9 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if dofFrom == dofTo {
+				err = errors.Join(err, fmt.Errorf("inclined support at %v from %v to itself", nodeID, desc.From))
+				continue
 			}
 
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
@@ -572,7 +575,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 196a071954f7134c86e646bc09aade3a48973744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 15/24] fix: treat an empty interpolation range as the entire
 element

As documented, an empty range is the same as none, it caused a panic.
---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..9925f50 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 && len(ps) != 1 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0


From ebbedb4502d123f0ec319deb4352482eb17d33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 16/24] fix: don't accumulate differences when merging
 identical polynomials

Merging a piece by comparison with an already merged predecessor let a slowly drifting sequence
collapse into a single piece that deviates by much more than the tolerance.
---
 deflect/polynomial.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index cc5cad3..1dce7f1 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -190,16 +190,20 @@ func (ps PolySequence) CompactIdentical(tol float64) PolySequence {
 	// Store the indices to polynomials that shall be removed. It would be easier to aggregate a new
 	// slice with polynomials to keep instead, but the dominant scenario here is no compacting at all.
 	var removal []int
+	// The most recent polynomial that is not going to be removed, this is the one that following
+	// polynomials are merged into. Always comparing to the direct predecessor instead would
+	// accumulate differences.
+	var kept int
 
 	for i := 1; i < len(ps); i++ {
-		if !approxEq(ps[i-1].XE, ps[i].X0) {
-			// There is a gap between two subsequent polynomials, should not happen for element
-			// interpolations, but let's treat this gracefully.
-			continue
-		}
+		// There can be a gap between two subsequent polynomials. This should not happen for element
+		// interpolations, but let's treat this gracefully.
+		contiguous := approxEq(ps[i-1].XE, ps[i].X0)
 
-		if slices.EqualFunc(ps[i-1].Coeff, ps[i].Coeff, approxEq) {
+		if contiguous && slices.EqualFunc(ps[kept].Coeff, ps[i].Coeff, approxEq) {
 			removal = append(removal, i)
+		} else {
+			kept = i
 		}
 	}
 
-- 
2.43.0


From 5d1b41b2a46477b056f2123c107af90ba3d90487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 17/24] fix: refuse systems that are singular to working
 precision

The factorisation of a singular matrix does not necessarily fail, and its condition number can end up
below the limit. Unstable structures were then answered with arbitrary displacements.
---
 deflect/cholesky.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 1cef408..0be8ace 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -24,6 +24,11 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
+	if isNumericallySingular(a, &ch) {
+		det := ch.Det()
+		return fmt.Errorf("coefficient matrix is singular to working precision, determinant = %v", det)
+	}
+
 	if err := ch.SolveVecTo(x, b); err != nil {
 		det := ch.Det()
 		return fmt.Errorf("failed to solve Cholesky-factorised system, det = %v", det)
@@ -32,6 +37,23 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 	return nil
 }
 
+// isNumericallySingular determines if any pivot is so small compared to the coefficient it originates
+// from that it must be considered a rounding error. The factorisation of a singular matrix doesn't
+// necessarily fail, since the pivot that should vanish can end up as a tiny positive number, and the
+// condition number is then not always large enough to be rejected.
+func isNumericallySingular(a mat.Symmetric, ch *mat.Cholesky) bool {
+	const tol = 1e-13
+	u := ch.RawU()
+
+	for i := range a.SymmetricDim() {
+		if pivot := u.At(i, i); pivot*pivot <= tol*a.At(i, i) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // NewCholeskySolver creates a Cholesky solver for symmetric positive definite coefficient matrices.
 func NewCholeskySolver() EquationSolver {
 	return &cholesky{}
-- 
2.43.0


From 769055ad55788b01b6f67553530c1dd4a7c080f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/24] fix: don't leave rounding errors as stiffness of hinged
 elements

Condensation cancels the stiffness of an element with enough hinges to be moved freely, and the
remaining rounding error could make an unstable structure appear solvable.
---
 deflect/static_condensation.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/deflect/static_condensation.go b/deflect/static_condensation.go
index 5b42ff3..7f96ff1 100644
--- a/deflect/static_condensation.go
+++ b/deflect/static_condensation.go
@@ -38,6 +38,35 @@ type preComputedHinge4x1x2 struct{}
 type preComputedHinge4x1x3 struct{}
 type preComputedHinge4x0x3 struct{}
 
+// exactZeros wraps another condenser and replaces stiffness coefficients that are only the rounding
+// error of a cancellation with zeros. Otherwise, elements with enough hinges to be moved freely would
+// seem to have a tiny stiffness, which hides that the structure is unstable.
+type exactZeros struct {
+	condenser
+}
+
+func (e *exactZeros) reduce(k *mat.SymDense, r *mat.VecDense) {
+	const tol = 1e-12
+	dim := k.SymmetricDim()
+	diagonal := make([]float64, dim)
+
+	for i := range dim {
+		diagonal[i] = k.At(i, i)
+	}
+
+	e.condenser.reduce(k, r)
+
+	for i := range dim {
+		if k.At(i, i) > tol*diagonal[i] {
+			continue
+		}
+		// The off-diagonal entries vanish together with the diagonal one
+		for j := range dim {
+			k.SetSym(i, j, 0)
+		}
+	}
+}
+
 func (*noHinge) reduce(k *mat.SymDense, r *mat.VecDense)     {}
 func (*noHinge) enhance(k *mat.SymDense, r, d *mat.VecDense) {}
 
@@ -421,8 +450,8 @@ func newStaticHingeCondenser(all []Index, hinged map[Index]struct{}) (c condense
 	case double(4, 0, 3):
 		c = &preComputedHinge4x0x3{}
 	default:
-		err = fmt.Errorf("unsupported hinge setup, indices %v with hinges %v", all, indices)
+		return nil, fmt.Errorf("unsupported hinge setup, indices %v with hinges %v", all, indices)
 	}
 
-	return c, err
+	return &exactZeros{c}, nil
 }
-- 
2.43.0


From d5ec213fb0b7ef4c523151bf33eff66540ef1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 19/24] fix: don't leave rounding errors as stiffness in the
 direction of an inclined support

---
 deflect/inclined_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index f660ea1..33d5af5 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -109,4 +109,12 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	k.SetSym(i, i, c*(c*kii+s*kij)+s*(c*kij+s*kjj))
 	k.SetSym(i, j, c*(c*kij+s*kjj)-s*(c*kii+s*kij))
 	k.SetSym(j, j, c*(c*kjj-s*kij)-s*(c*kij-s*kii))
+
+	// When there is no stiffness in the direction that remains free, a rounding error must not be taken
+	// for one. It would hide that the structure is unstable.
+	const tol = 1e-14
+
+	if k.At(i, i) <= tol*math.Max(kii, kjj) {
+		k.SetSym(i, i, 0)
+	}
 }
-- 
2.43.0


From e9a4ecfffbd01831f7b737d2685493999ca3a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 20/24] fix: judge tiny pivots by the terms that cancelled

The rounding error of a rotation of the structure is much larger than the stiffness coefficient in the
pivot's own row suggests.
---
 deflect/cholesky.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 0be8ace..1badd39 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -2,6 +2,7 @@ package deflect
 
 import (
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -37,16 +38,25 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 	return nil
 }
 
-// isNumericallySingular determines if any pivot is so small compared to the coefficient it originates
-// from that it must be considered a rounding error. The factorisation of a singular matrix doesn't
-// necessarily fail, since the pivot that should vanish can end up as a tiny positive number, and the
-// condition number is then not always large enough to be rejected.
+// isNumericallySingular determines if any pivot is so small that it must be considered a rounding error.
+// The factorisation of a singular matrix doesn't necessarily fail, since the pivot that should vanish can
+// end up as a tiny positive number, and the condition number is then not always large enough to be
+// rejected.
 func isNumericallySingular(a mat.Symmetric, ch *mat.Cholesky) bool {
-	const tol = 1e-13
+	// Rounding errors are far below this threshold, so there is no need to look closer when exceeded
+	const suspicious = 1e-8
+	const tol = 1e-14
+
 	u := ch.RawU()
 
 	for i := range a.SymmetricDim() {
-		if pivot := u.At(i, i); pivot*pivot <= tol*a.At(i, i) {
+		pivot := u.At(i, i)
+
+		if pivot *= pivot; pivot > suspicious*a.At(i, i) {
+			continue
+		}
+
+		if pivot <= tol*pivotMagnitude(a, u, i) {
 			return true
 		}
 	}
@@ -54,6 +64,29 @@ func isNumericallySingular(a mat.Symmetric, ch *mat.Cholesky) bool {
 	return false
 }
 
+// pivotMagnitude computes a bound for the terms that cancel each other in the squared pivot of the given
+// row. That pivot is xᵀ·a·x, where x is one in the given row, zero below, and minimises the product.
+func pivotMagnitude(a mat.Symmetric, u mat.Triangular, row int) (result float64) {
+	x := make([]float64, row+1)
+	x[row] = 1
+
+	for i := row - 1; i >= 0; i-- {
+		for j := i + 1; j <= row; j++ {
+			x[i] -= u.At(i, j) * x[j]
+		}
+
+		x[i] /= u.At(i, i)
+	}
+
+	for i := range x {
+		for j := range x {
+			result += math.Abs(x[i] * a.At(i, j) * x[j])
+		}
+	}
+
+	return result
+}
+
 // NewCholeskySolver creates a Cholesky solver for symmetric positive definite coefficient matrices.
 func NewCholeskySolver() EquationSolver {
 	return &cholesky{}
-- 
2.43.0


From bf3ecf3c43dfb5542cd591bf09a4feaf501004d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 21/24] fix: keep negative stiffness in the direction of an
 inclined support

---
 deflect/inclined_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 33d5af5..acba8e3 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -114,7 +114,7 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	// for one. It would hide that the structure is unstable.
 	const tol = 1e-14
 
-	if k.At(i, i) <= tol*math.Max(kii, kjj) {
+	if math.Abs(k.At(i, i)) <= tol*math.Max(math.Abs(kii), math.Abs(kjj)) {
 		k.SetSym(i, i, 0)
 	}
 }
-- 
2.43.0


From 9265a2a98b76ae747d9cfc8298ca358e1538ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 22/24] fix: report overflow as an error instead of infinite
 displacements

---
 deflect/linear_bvp_solver.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 8cb66e9..017d27f 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,6 +3,7 @@ package deflect
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -104,6 +105,10 @@ func (s *linearSolver) Solve(
 		p.EqTransforms[i].Post(indices, r, d)
 	}
 
+	if err := checkFinite(s.eqn.d, s.eqn.r); err != nil {
+		return nil, fmt.Errorf("solution is not representable: %w", err)
+	}
+
 	err := indices.flushFailure()
 
 	return &solverResult{
@@ -180,3 +185,17 @@ func (s *linearSolver) extractK12() {
 		}
 	}
 }
+
+// checkFinite returns an error if there is an infinite value or NaN in one of the vectors, e.g. because
+// of numerical overflow.
+func checkFinite(vs ...*mat.VecDense) error {
+	for _, v := range vs {
+		for _, value := range v.RawVector().Data {
+			if math.IsInf(value, 0) || math.IsNaN(value) {
+				return fmt.Errorf("computed nodal value %v", value)
+			}
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 6ae2bdc2c6d5faa03948b533b5a529fd7145756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 23/24] fix: look at all pivots of an ill-conditioned system

---
 deflect/cholesky.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 1badd39..d2b8990 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -43,20 +43,20 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 // end up as a tiny positive number, and the condition number is then not always large enough to be
 // rejected.
 func isNumericallySingular(a mat.Symmetric, ch *mat.Cholesky) bool {
-	// Rounding errors are far below this threshold, so there is no need to look closer when exceeded
-	const suspicious = 1e-8
+	// Rounding errors don't matter below this condition number, so there is no need to look closer
+	const harmless = 1e10
 	const tol = 1e-14
 
+	if ch.Cond() < harmless {
+		return false
+	}
+
 	u := ch.RawU()
 
 	for i := range a.SymmetricDim() {
 		pivot := u.At(i, i)
 
-		if pivot *= pivot; pivot > suspicious*a.At(i, i) {
-			continue
-		}
-
-		if pivot <= tol*pivotMagnitude(a, u, i) {
+		if pivot*pivot <= tol*pivotMagnitude(a, u, i) {
 			return true
 		}
 	}
-- 
2.43.0


From cc1186e4e5f923629884ac6d9124d55a20eb551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 24/24] fix: keep small stiffness in the direction of an
 inclined support

---
 deflect/inclined_support.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index acba8e3..8ef0eb4 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -111,10 +111,14 @@ func (l *inclinedSupport) transformTangent(i, j int, k *mat.SymDense) {
 	k.SetSym(j, j, c*(c*kjj-s*kij)-s*(c*kij-s*kii))
 
 	// When there is no stiffness in the direction that remains free, a rounding error must not be taken
-	// for one. It would hide that the structure is unstable.
+	// for one. It would hide that the structure is unstable. Rounding errors stem from terms that cancel,
+	// and from the angle.
 	const tol = 1e-14
 
-	if math.Abs(k.At(i, i)) <= tol*math.Max(math.Abs(kii), math.Abs(kjj)) {
+	terms := c*c*math.Abs(kii) + 2*math.Abs(s*c*kij) + s*s*math.Abs(kjj)
+	angular := tol * math.Max(math.Abs(kii), math.Abs(kjj))
+
+	if math.Abs(k.At(i, i)) <= tol*(terms+angular) {
 		k.SetSym(i, i, 0)
 	}
 }
-- 
2.43.0

