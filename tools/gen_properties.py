#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": ["deflect/" + f if "/" not in f else f for f in files],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": hook,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    })


ELEM = ["beam2d.go", "truss2d.go", "truss3d.go", "frame.go", "geometry.go", "static_condensation.go"]
SOLVE = ["linear_bvp_solver.go", "eq_layout.go", "inclined_support.go", "cholesky.go", "solver_result.go"]

prop("C01", "Nodal displacements are the exact first-order theory solution",
     "For every kinematically stable structure of 2d trusses, 3d trusses and 2d frames, with any supported hinges, element loads, nodal loads, prescribed displacements and inclined supports, every displacement and rotation reported at a node equals the exact solution of first-order linear-elastic Bernoulli beam/bar theory, up to floating-point rounding. This includes structures that mix element kinds, materials, cross sections and element orientations.",
     ["inputs", "configurations"],
     "all stable structures (geometry, topology, orientation, hinges, supports, loads, materials, sections) within well-conditioned floating-point range",
     "The integration tests solve about 100 hand-picked structures, mostly one to three elements along the x axis with one load type at a time; they cannot cover combinations of orientation, hinge, load and support.",
     ELEM + SOLVE + ["element_loads.go"],
     [("element stiffness and equivalent nodal loads", "beam2d.go/truss2d.go/truss3d.go Assemble"),
      ("static condensation of hinges", "static_condensation.go"),
      ("partitioned solve", "linear_bvp_solver.go Solve")],
     ["ProblemResult.Primary", "ProblemResult.PrimaryAll"])

prop("C02", "Reactions keep the loaded structure in static equilibrium",
     "For every solved problem, the reported reactions together with all applied nodal and element loads have zero resultant force and zero resultant moment about any point, also separately for every unconnected part. At every constrained degree of freedom the reaction is exactly what is needed to balance the element end forces and the applied load there, and at a degree of freedom without any support no reaction is reported.",
     ["inputs", "configurations"],
     "all solvable structures, load combinations and support kinds, including inclined supports with loads acting directly on the supported node and non-zero prescribed displacements",
     "Tests compare a handful of reaction components of selected structures; no test checks the overall balance, loads on support nodes of inclined supports, or all-non-zero prescribed displacements.",
     SOLVE + ELEM,
     [("reaction recovery r1 = k11 d1 + k12 d2 - f1", "linear_bvp_solver.go Solve"),
      ("back transformation of reactions", "inclined_support.go Post")],
     ["ProblemResult.Reaction", "ProblemResult.ReactionAll"])

prop("C03", "Supports and prescribed displacements are honoured exactly",
     "After a successful solve, every prescribed nodal displacement or rotation is reported with exactly the prescribed value, whatever the other boundary conditions are. At an inclined support the node moves only along the support's sliding direction (at the given angle from the 'from' axis towards the 'to' axis) and the reaction is perpendicular to that direction; several inclined supports hold at the same time; where they share a node, a later one acts in the axes already turned by the earlier ones.",
     ["inputs", "configurations"],
     "all solvable structures with any combination of zero/non-zero Dirichlet conditions and inclined supports of any angle and any pair of translational axes",
     "Few tests use non-zero prescribed values (always next to a zero one) and inclined supports are tested for fixed angles and single links per node only.",
     ["linear_bvp_solver.go", "inclined_support.go", "eq_layout.go", "problem_from_json.go"],
     [("Dirichlet partition and right-hand side correction", "linear_bvp_solver.go Solve"),
      ("pre/post rotation of the system", "inclined_support.go Pre/Post")],
     ["ProblemResult.Primary", "ProblemResult.Reaction"])

prop("C04", "Interpolated fields satisfy the bar and beam equations",
     "On every element of every solved problem the interpolated functions fulfil the governing equations along the whole element: axial force, shear force and bending moment change exactly with the applied distributed and concentrated loads, the bending moment's slope is the shear force, and displacement and rotation follow from axial force and moment by the elastic law. The pieces of a function tile the element from start to end without gap or overlap, displacements and rotations are continuous, and internal forces jump only at and by concentrated loads.",
     ["inputs", "configurations"],
     "all elements, load types, positions, numbers of simultaneous loads, hinges and orientations",
     "Tests sample selected polynomials at few points for up to a few loads per element; they cannot establish the differential relations for all load combinations and positions.",
     ["beam2d.go", "truss2d.go", "truss3d.go", "frame.go", "polynomial.go", "solver_result.go"],
     [("moment/normal force pieces per load", "beam2d.go InterpolateMy, truss2d.go InterpolateNx"),
      ("differentiation, integration, flattening", "polynomial.go")],
     ["ProblemResult.Interpolate", "ProblemResult.InterpolateAll"])

prop("C05", "Interpolations agree with nodal results at element ends",
     "At both ends of every element the interpolated displacements and rotation equal the connected node's solution expressed in the element's local axes, except for a component released by a hinge there. The interpolated internal forces of all elements meeting at a node, the loads on that node and the reactions there balance each other in every free and every supported direction.",
     ["inputs", "configurations"],
     "all nodes and elements of all solvable structures, any number of elements per node, any orientation and hinge pattern",
     "Tests check end values for selected functions on selected elements, never the balance of all members at arbitrary nodes.",
     ELEM + ["solver_result.go", "polynomial.go"],
     [("recovery of element start values", "beam2d.go/truss2d.go/truss3d.go startNodeValues"),
      ("restoring condensed hinge values", "static_condensation.go enhance")],
     ["ProblemResult.Interpolate", "ProblemResult.Primary", "ProblemResult.Reaction"])

prop("C06", "Superposition: results are linear in loads and prescribed values",
     "For a fixed structure, scaling all loads and prescribed displacements by a factor scales every displacement, reaction and interpolated function by that factor, and the results under a sum of two load cases (nodal loads, element loads and prescribed displacements) are the sum of the results of each.",
     ["inputs", "configurations"],
     "all stable structures and all pairs of load cases, including the all-zero load case",
     "A relation between several solves of arbitrary structures; existing tests solve each structure once.",
     ELEM + SOLVE + ["element_loads.go"],
     [("linear assembly and solve", "linear_bvp_solver.go Solve"), ("load vectors", "localNoHingeLoads")],
     ["ProblemResult.*"])

prop("C07", "Results do not depend on where or how the structure is placed in space",
     "Translating a whole structure, rotating it in the x-z plane (or in space for 3d trusses) or mirroring it, together with its loads, supports and prescribed displacements, transforms nodal displacements and reactions accordingly and leaves every element's local interpolations unchanged (up to the sign changes a mirror image implies).",
     ["inputs", "configurations"],
     "all stable structures, all rotation angles and translations, supports expressed by inclined supports where they become skew",
     "Nearly all tests are axis-aligned and start at the origin; no test compares a structure with its rotated or translated copy.",
     ELEM + ["inclined_support.go", "linear_bvp_solver.go"],
     [("direction cosines and length", "geometry.go"), ("co-ordinate transformation in Assemble", "beam2d.go, truss2d.go, truss3d.go")],
     ["ProblemResult.*"])

prop("C08", "Results do not depend on naming, ordering or element direction",
     "Renaming nodes, elements, materials and cross sections, or reordering nodes, elements, loads and boundary conditions, changes no physical result. Exchanging the start and end node of an element (with hinges and element loads re-expressed for the reversed axis) leaves all nodal results unchanged and only re-expresses that element's interpolation in its new local axes.",
     ["inputs", "configurations"],
     "all structures, all injective renamings, all permutations, all subsets of reversed elements",
     "Node names decide the equation numbering; tests use a few short names in construction order, so numbering- or order-dependent defects stay invisible.",
     ["eq_layout.go", "linear_bvp_solver.go", "problem_from_json.go", "solver_result.go"] + ELEM,
     [("symbolic index to equation mapping", "eq_layout.go createIndexMap"), ("ordering of indices", "eq_layout.go compareIndices")],
     ["ProblemResult.*", "NewEqLayout"])

prop("C09", "Splitting a member does not change the solution",
     "Inserting a node anywhere on a frame member, and distributing its loads and hinges to the two parts, leaves all results at the original nodes unchanged; interpolations of the two parts equal the corresponding sections of the original member. Likewise a truss member may be replaced by parallel members with the same total axial stiffness.",
     ["inputs", "configurations"],
     "all stable structures, all frame members, all split positions, all load types (partial concentrated, constant, linear)",
     "No test solves the same structure with different meshes.",
     ELEM + ["linear_bvp_solver.go", "polynomial.go"],
     [("nodally exact element formulation", "beam2d.go"), ("equivalent loads", "localNoHingeLoads")],
     ["ProblemResult.*"])

prop("C10", "A hinge transmits nothing in its direction; unsupported sets are rejected",
     "For every supported hinge pattern the internal force belonging to the released component vanishes at that element end, and at a node joining exactly two collinear members it makes no physical difference which of the two members carries the release. A hinge pattern the implementation cannot handle is rejected when the element is created instead of being ignored or miscomputed. The releases of an element are those given when it was created.",
     ["inputs", "configurations"],
     "all 16 subsets of frame end releases in bending, all 4 axial subsets, any orientation, load and stiffness",
     "Tests cover a selection of patterns on horizontal beams for one load type each.",
     ["static_condensation.go", "beam2d.go", "truss2d.go", "truss3d.go", "frame.go"],
     [("pattern dispatch", "static_condensation.go newStaticHingeCondenser"), ("reduce/enhance per pattern", "static_condensation.go")],
     ["NewFrame2d", "NewTruss2d", "NewTruss3d", "ProblemResult.Interpolate"])

prop("C11", "Solving is independent of history; earlier results stay valid",
     "Whatever sequence of problems a solver object, a layout or a problem's boundary-condition objects have been used for before - larger, smaller, failing or the same - solving a problem gives the same answer as with fresh objects. A result obtained earlier keeps reporting the values of its own problem after any later use of the solver, and inputs (problem, layout) are not altered by solving.",
     ["histories", "fault_sequences"],
     "all sequences of solve/query/modify operations on shared solvers, problems, layouts and transformers, including failing solves",
     "Every test builds fresh objects and solves once; buffer reuse between solves is never exercised.",
     ["linear_bvp_solver.go", "solver_result.go", "inclined_support.go", "eq_layout.go"],
     [("matrix buffers reused between solves", "linear_bvp_solver.go formMatrices"),
      ("scratch buffers in inclined supports", "inclined_support.go Pre"), ("result snapshot", "solver_result.go")],
     ["ProblemSolver.Solve", "ProblemResult.*"],
     state=[("solver matrices", "global stiffness, residual, displacement buffers kept by a solver", "linear_bvp_solver.go"),
            ("link row buffers", "scratch rows kept by an inclined support", "inclined_support.go")])

prop("C12", "Only the element loads currently applied act",
     "After any sequence of adding and removing element loads, an element behaves as if freshly created with exactly the loads still applied, counted with multiplicity; removing a load removes all its instances, and removing one that is not applied has no effect. Adding a load reports success exactly when the element kind supports that load, and a rejected load has no effect.",
     ["histories", "inputs"],
     "all interleavings of add/remove/solve on all element kinds with all load kinds, including repeated and foreign load objects",
     "One test checks counts on the shared base type with dummy loads; none checks the effect on results or the composed frame element.",
     ["one_dim_element.go", "frame.go", "beam2d.go", "truss2d.go", "truss3d.go", "element_loads.go"],
     [("load list", "one_dim_element.go AddLoad/RemoveLoad"), ("delegation of composed element", "frame.go AddLoad")],
     ["Element.AddLoad", "Element.RemoveLoad", "Element.Assemble", "Element.Interpolate"],
     state=[("element load list", "loads in effect", "one_dim_element.go")])

prop("C13", "Unstable structures are refused; success means finite numbers",
     "A structure that can move without deformation (missing supports, mechanism, too many hinges), or that has nothing or everything prescribed, is answered with an error and never with numbers. Whenever solving succeeds, every displacement and reaction is finite, whatever the magnitude of the input, and so is every interpolation coefficient unless the given numbers themselves exceed the range of floating-point arithmetic; solving never crashes on any constructible problem.",
     ["inputs", "configurations"],
     "all unstable structures in general position (so that rounding blurs singularity) and all stable ones, including badly scaled ones",
     "Two tests use exactly singular matrices; rotated or perturbed mechanisms where rounding produces tiny positive pivots are not tested.",
     ["cholesky.go", "linear_bvp_solver.go", "beam2d.go", "truss2d.go", "truss3d.go"],
     [("Cholesky failure and condition check", "cholesky.go SolveLinearSystem"), ("dimension checks", "linear_bvp_solver.go initialise")],
     ["ProblemSolver.Solve", "ProblemResult.*"])

prop("C14", "A JSON problem means the same as the problem built through the API",
     "For every valid JSON problem description, the parsed problem gives the same results as building the described nodes, materials, sections, elements, hinges, loads, supports and links directly. Documented shorthands (a single material or section left unnamed, node names inferred from a two-character element name, omitted optional parameters), key order, whitespace, string escapes, number notation and unrelated extra fields do not change the meaning.",
     ["inputs", "programs"],
     "all valid problem documents and all textual presentations of them",
     "The jsonnet-based tests exercise one presentation of about 100 documents and never compare with API-built problems.",
     ["problem_from_json.go", "element_loads.go", "cross_sections.go"],
     [("document translation", "problem_from_json.go ProblemFromJSON"), ("shorthand lookup", "problem_from_json.go lookupAllowEmptyOnSingle, determineNodes")],
     ["ProblemFromJSON"])

prop("C15", "Defective JSON problems are rejected with an error, never a crash",
     "Any byte sequence given as a problem description either yields a problem or an error, without crashing or hanging. A description that refers to something undefined (node, element, material, section, degree of freedom, kind), omits something required, or specifies something unsupported or contradictory is answered with an error by parsing, by numbering the equations or by solving - never silently computed with the defective part ignored.",
     ["inputs", "fault_sequences"],
     "all byte strings; all valid documents with any one (or several) of an open-ended catalogue of defects injected anywhere",
     "Tests cover about a dozen fixed defective documents.",
     ["problem_from_json.go", "eq_layout.go", "linear_bvp_solver.go", "cross_sections.go", "element_loads.go", "static_condensation.go", "one_dim_element.go"],
     [("per-section validation", "problem_from_json.go translate*"), ("lookup failures", "eq_layout.go failure"), ("Dirichlet validation", "eq_layout.go createIndexMap")],
     ["ProblemFromJSON", "NewEqLayout", "ProblemSolver.Solve"])

prop("C16", "Equation numbering is a complete one-to-one map and reports bad references",
     "For every problem the result covers every degree of freedom used by the elements exactly once and no other, the reported total and net dimensions count all and all unprescribed degrees of freedom, and the system handed to the equation solver has exactly the net dimension. Prescribing a degree of freedom twice or one no element uses is an error; a load, inclined support or element referring to a degree of freedom outside the system makes solving fail instead of silently acting on another degree of freedom.",
     ["inputs", "configurations"],
     "all sets of elements and boundary conditions, including mixed element kinds with different degrees of freedom per node and arbitrary node names",
     "Tests check seven fixed index sets and never a transformer or element with missing indices.",
     ["eq_layout.go", "linear_bvp_solver.go", "solver_result.go"],
     [("index map construction", "eq_layout.go createIndexMap, freeAndConstraintsToIndices"), ("failure tracking", "eq_layout.go saveFailure/failure")],
     ["NewEqLayout", "ProblemResult.PrimaryAll", "ProblemResult.Dimension", "EquationSolver.SolveLinearSystem arguments"],
     state=[("lookup failure list", "failed symbolic lookups since last flush", "eq_layout.go")])

prop("C17", "Polynomial post-processing preserves values and finds what it is asked for",
     "Evaluating a polynomial piece inside its domain returns the polynomial's value and outside its domain returns an error. Trimming and compacting a piecewise polynomial changes its value nowhere by more than the given tolerance accounts for, leaves its domain unchanged, yields canonical pieces (no removable trailing coefficient, no constant term within the tolerance of zero, no two mergeable neighbours) and is idempotent; interval lookup returns the first piece with exactly that domain, or none.",
     ["inputs"],
     "all piecewise polynomials (degrees, domains, gaps, runs of equal pieces) and tolerances",
     "Table tests with about 25 fixed sequences; the out-of-domain case is not asserted.",
     ["polynomial.go"],
     [("Eval", "polynomial.go PolyPiece.Eval"), ("TrimTrailingZeros/CompactIdentical/IntervalIndex", "polynomial.go")],
     ["PolyPiece.Eval", "PolyPiece.Degree", "PolySequence.TrimTrailingZeros", "PolySequence.CompactIdentical", "PolySequence.IntervalIndex"])

prop("C18", "Cross sections report the section's properties and reject impossible ones",
     "A rectangular section reports area, both second moments of area and (to the accuracy of the standard approximation) the torsion constant of its b x h rectangle with the stated orientation, and a section given by constants reports exactly those constants. Sections with non-positive dimensions or mandatory constants, missing mandatory constants, or negative optional parameters are rejected with an error, and all others are accepted.",
     ["inputs"],
     "all real dimensions/constants and all subsets of parameters",
     "Tests use one or two fixed rectangles, a square for torsion, and eight parameter sets.",
     ["cross_sections.go"],
     [("rectangular formulas", "cross_sections.go rectangular"), ("validation", "cross_sections.go New*")],
     ["NewRectangularCrossSection", "NewConstantsCrossSections", "CrossSection interface"])

prop("C19", "Element stiffness contributions are symmetric, elastic and purely additive",
     "Each element adds to the system - without disturbing what is already there or touching foreign degrees of freedom - a stiffness that is positive semi-definite, produces no force under any rigid body motion of its nodes, and depends only on its own geometry, material, section and hinges; its load contribution is statically equivalent to its applied loads. The contribution is the same whatever was assembled before and however often it is repeated.",
     ["inputs", "histories"],
     "all element kinds, orientations, hinge patterns, loads, and pre-existing contents of the system",
     "Only the local 2x2 truss stiffness is unit-tested for two inputs.",
     ELEM,
     [("global assembly", "beam2d.go/truss2d.go/truss3d.go Assemble"), ("condensation", "static_condensation.go reduce")],
     ["Element.Assemble", "Element.Indices"])

prop("C20", "Inclined support transformation is an orthogonal, reversible change of basis",
     "Applying an inclined support to a system performs exactly the orthogonal change of basis in its two degrees of freedom: eigenvalues and energy are preserved, unrelated rows and entries keep their values, and the back transformation restores vectors exactly, for any angle, any pair of degrees of freedom in any numbering order, any system size, and repeated or changing use of the same object.",
     ["inputs", "histories"],
     "all angles, index pairs, symmetric matrices and vectors, system sizes, and re-use sequences",
     "One test with four angles, one index pair (first index smaller) and one dimension.",
     ["inclined_support.go"],
     [("tangent and vector transformation", "inclined_support.go transformTangent/transformVec")],
     ["Transformer.Pre", "Transformer.Post"])

prop("C21", "Equation solving is correct or refused, and the solving strategy is exchangeable",
     "For every symmetric positive definite system the built-in equation solver returns the solution to rounding accuracy without modifying its inputs; for every system that is clearly not positive definite it returns an error and never panics. The boundary value solver gives the same results with any correct equation solver plugged in, and passes a strategy's failure on as an error.",
     ["inputs", "configurations", "fault_sequences"],
     "all symmetric systems of all sizes and scalings; all correct or failing strategies",
     "Tests use one fixed 4x4 and one singular 150x150 system and never another strategy.",
     ["cholesky.go", "linear_bvp_solver.go"],
     [("Cholesky factorisation with panic capture", "cholesky.go"), ("strategy call and error wrapping", "linear_bvp_solver.go Solve")],
     ["EquationSolver.SolveLinearSystem", "ProblemSolver.Solve"])

prop("C22", "Energy theorems hold: work balance and reciprocity",
     "For every solved problem the work of loads and reactions on the computed displacements equals twice the elastic strain energy computed from the interpolated internal forces, which is never negative. For any two load cases on the same structure the work of the first on the displacements of the second equals the work of the second on those of the first.",
     ["inputs", "configurations"],
     "all stable structures and pairs of load cases with homogeneous or prescribed supports",
     "Energy relates all results of a solve at once; tests look at individual numbers.",
     ELEM + ["polynomial.go", "linear_bvp_solver.go"],
     [("symmetric stiffness", "Assemble"), ("consistent loads and fields", "localNoHingeLoads, Interpolate*")],
     ["ProblemResult.*"])

prop("C23", "All ways of querying a result agree, and queries have no side effects",
     "Single-value queries, list queries, single and bulk interpolations and the dimension of a result agree with each other, in any order and any number of repetitions, and asking for something that does not exist (unknown node, element or degree of freedom) returns an error without spoiling later answers. Bulk interpolation contains every function an element type supports exactly once per element, and none it does not support. Every interpolation is already trimmed and compacted with the tolerance asked for.",
     ["inputs", "histories"],
     "all results and all sequences of valid and invalid queries with any zero tolerance",
     "Tests issue a few single queries per result, never repeated, mixed, bulk or failing ones.",
     ["solver_result.go", "eq_layout.go", "frame.go", "beam2d.go", "truss2d.go", "truss3d.go"],
     [("lazy indexed lists", "solver_result.go indexPaired"), ("interpolation dispatch", "solver_result.go Interpolate/InterpolateAll")],
     ["ProblemResult.*"],
     state=[("cached lists", "lazily built nodal lists", "solver_result.go"), ("lookup failures", "pending lookup errors", "eq_layout.go")])

prop("C24", "Independent problems can be built and solved concurrently",
     "Building, solving and querying separate problems from several goroutines at the same time, each with its own objects, gives each the same result as doing it alone, and involves no data race.",
     ["schedules", "inputs"],
     "all sets of separate problems and all goroutine schedules (explored by sampling under the race detector)",
     "The parallel integration tests compare against tabulated values only for fixed problems; new shared state would only be noticed by chance.",
     ["linear_bvp_solver.go", "inclined_support.go", "eq_layout.go", "beam2d.go", "truss2d.go", "truss3d.go", "problem_from_json.go", "cholesky.go", "solver_result.go"],
     [("no package-level mutable state", "package deflect")],
     ["ProblemFromJSON", "ProblemSolver.Solve", "ProblemResult.*"])

prop("C25", "Results scale with stiffness, load and length units as mechanics demands",
     "Multiplying all stiffness by a factor divides load-induced displacements by it and leaves forces unchanged; scaling all lengths, section values and loads consistently (a change of length or force unit) scales every displacement, rotation, force and moment by the corresponding unit factor. This holds over many orders of magnitude.",
     ["inputs", "configurations"],
     "all stable structures and all unit factors over many orders of magnitude",
     "All tests use SI-sized numbers; absolute thresholds hidden in the computation stay invisible.",
     ELEM + SOLVE + ["polynomial.go", "cross_sections.go"],
     [("dimensionally homogeneous formulas", "package deflect"), ("absolute tolerances", "polynomial.go flatten, linear_bvp_solver.go Solve")],
     ["ProblemResult.*"])

prop("C26", "Test expectations accept a result exactly when it matches",
     "Expectations parsed from an expectation document report a failure for every result that deviates from the specified nodal value, reaction, polynomial degree, boundary value or sample by more than the tolerance, or whose error does not match the expected failure, and report nothing otherwise. The tolerance of nodal values is relative, with deviations below 1e-8 always accepted; that of interpolations is both absolute and relative. Documents with unknown fields, unknown quantities or malformed ranges and samples are rejected.",
     ["inputs"],
     "all expectation documents and all results within or outside tolerance",
     "The expectation checker is only used on passing cases; nothing tests that it can fail.",
     ["integr/expectations.go", "integr/expectations_from_json.go"],
     [("comparison with tolerance", "integr/expectations.go"), ("strict decoding", "integr/expectations_from_json.go")],
     ["integr.ExpectationsFromJSON", "integr.Expectation methods"])

prop("C27", "The jsonnet helpers produce the problem documents they describe",
     "For all arguments, each helper of the jsonnet problem library (materials, sections, elements, supports, inclined supports, nodal and element loads) evaluates to a document fragment that the problem parser understands as exactly the described entity with the given values, and the expectation helpers evaluate to fragments the expectation parser understands likewise.",
     ["inputs", "programs"],
     "all helper calls with all argument combinations (with and without optional arguments)",
     "The tests call the helpers with fixed arguments; wrong but consistent use of a rarely used helper or argument is invisible.",
     ["integr/bvp.libsonnet", "integr/test.libsonnet", "problem_from_json.go", "integr/expectations_from_json.go"],
     [("helper functions", "integr/bvp.libsonnet, integr/test.libsonnet")],
     ["jsonnet evaluation", "ProblemFromJSON", "ExpectationsFromJSON"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
