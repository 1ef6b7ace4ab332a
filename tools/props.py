#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
C="src/curve/nurbs_curve.rs"; K="src/knot/knot_vector.rs"; S="src/surface/nurbs_surface.rs"
TS="src/surface/trimmed_surface.rs"; CC="src/region/compound_curve.rs"; RG="src/region/mod.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook or None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Curve evaluation agrees with the rational B-spline definition",
 "For every valid NURBS curve (2D or 3D, any degree, uniform or non-uniform knots with repeated knots, clamped or unclamped, any positive weights, f32 or f64) the point evaluated at any parameter of the domain is the weighted B-spline combination of the control points at that parameter, and therefore lies in their convex hull. Sampling a parameter range returns exactly the requested number of samples, evenly spaced from start to end inclusive, each sample being the evaluated point at its parameter. The reported domain, weights and Euclidean control points are the ones the curve was built from.",
 ["inputs"],"all valid curves x all parameters in the domain (span interiors, knots, repeated knots, both ends)",
 "doctests evaluate a handful of fixed curves at a few parameters; no test sweeps degree x knot structure x weights against an independent definition",
 [C,K],[("span search + basis function evaluation","src/knot/knot_vector.rs find_knot_span_index, basis_functions"),("homogeneous evaluation and projection","src/curve/nurbs_curve.rs point, point_at, dehomogenize, sample_regular_range*")],["point_at","sample_regular_range","sample_regular_range_with_parameter","knots_domain","weights","dehomogenized_control_points"])

p("C02","Curve tangents and second derivatives are the true derivatives",
 "At every parameter of a valid curve at which the curve is differentiable, the reported tangent and second derivative equal the first and second parametric derivatives of the point the curve evaluates to there (one-sided at the ends of the domain), for rational and non-rational curves of any degree. The combined point-and-tangent query agrees with the two separate queries.",
 ["inputs"],"all valid curves x all parameters where the derivative exists",
 "no test compares derivatives with an independent derivative; rational weights and high multiplicities are not sampled at all",
 [C,K],[("derivative basis functions","src/knot/knot_vector.rs derivative_basis_functions"),("quotient rule for rational derivatives","src/curve/nurbs_curve.rs derivatives, rational_derivatives")],["tangent_at","second_derivative_at","point_tangent_at"])

p("C03","Knot vector queries are consistent with the knot sequence",
 "For every non-decreasing knot vector and degree (knots repeated at most degree + 1 times), the span located for a parameter of the domain is the non-empty half-open knot interval containing it (the last non-empty one at the domain end), both span searches agree, the basis functions there are non-negative, sum to one and equal the Cox-de Boor functions, and their reported derivatives are the derivatives of those functions. Domain, constraining of parameters, multiplicities, clampedness, insertion into the vector and inversion describe exactly the knot sequence, and the regularly spaced variants agree with the pointwise ones.",
 ["inputs"],"all non-decreasing knot vectors x degrees x parameters of the domain",
 "the tests touch one or two uniform knot vectors; repeated interior knots, unclamped vectors, tiny spans and the domain end are untested",
 [K],[("span search","src/knot/knot_vector.rs find_knot_span_index, find_knot_span_linear"),("basis and derivative basis","src/knot/knot_vector.rs basis_functions, derivative_basis_functions, regulary_spaced_*")],["KnotVector public methods"])

p("C04","Constructors accept exactly the valid inputs and keep the structure invariant",
 "Curve construction accepts exactly the inputs with more control points than the degree and with (control points + degree + 1) knots, keeps the knots sorted, and reports anything else as an error rather than a panic or an inconsistent curve. Every curve or surface returned by any library operation satisfies the structural invariant: knot count = control point count + degree + 1 in each direction, knots sorted and finite, control points finite, weights positive when the input weights were. Normalising knots maps the domain onto [0,1] by a linear reparameterisation, without changing the shape traced.",
 ["inputs","histories"],"all constructor inputs; all sequences of operations over valid curves and surfaces",
 "tests only build valid objects and never re-validate the results of operations",
 [C,S,K],[("validation in try_new","src/curve/nurbs_curve.rs try_new"),("normalize_knots","src/curve/nurbs_curve.rs normalize_knots")],["try_new","knots","control_points","every operation returning a curve or surface"])

p("C05","Knot insertion, refinement and clamping do not change the curve",
 "Inserting a knot, refining with any sorted or unsorted list of knots inside the domain (including values equal to existing knots, up to multiplicity = degree), and clamping an unclamped curve leave the point at every parameter of the domain unchanged and the domain itself unchanged, for rational and non-rational curves. The resulting knot vector is exactly the old one plus the inserted knots, and a clamped curve starts and ends at its first and last control points.",
 ["inputs","histories"],"all valid curves x all admissible insertion lists and sequences of insertions",
 "the tests insert one knot in one non-rational curve",
 [C,K],[("Boehm insertion","src/curve/nurbs_curve.rs try_add_knot"),("Oslo refinement","src/curve/nurbs_curve.rs try_refine_knot"),("clamping","src/curve/nurbs_curve.rs try_clamp")],["try_add_knot","try_refine_knot","try_clamp","is_clamped"])

p("C06","Knot removal only succeeds within tolerance and undoes insertion",
 "Removing knots never moves any point of the curve by more than a small multiple of the tolerance in force times the number of removals reported, and the returned count is exactly the number of copies of that knot that disappeared together with as many control points. A knot that was inserted without changing the shape can be removed again, while a knot whose removal would change the shape by more than the tolerance is left in place.",
 ["inputs","histories"],"all valid curves x interior knots x tolerances; insert-then-remove histories",
 "the single doctest removes one knot of one fixed curve",
 [C],[("knot removal with tolerance test","src/curve/nurbs_curve.rs try_remove_knot")],["try_remove_knot"])

p("C07","Degree elevation preserves the curve",
 "Elevating a curve to any higher degree yields a curve of exactly that degree with the same domain that evaluates to the same point at every parameter and satisfies the structural invariant, for single- and multi-span, rational and non-rational clamped curves with interior knots of any multiplicity up to the degree. Requests that do not raise the degree return the curve unchanged.",
 ["inputs"],"all valid clamped curves x target degrees",
 "tests elevate one quadratic by one degree",
 [C],[("degree elevation via Bezier segments","src/curve/nurbs_curve.rs try_elevate_degree"),("binomial coefficients","src/misc/binomial.rs")],["try_elevate_degree"])

p("C08","Splitting reproduces the original curve piecewise",
 "Splitting a curve at any parameter strictly inside its domain (including at existing knots of any multiplicity) gives two valid curves whose domains are [start, t] and [t, end] and which evaluate to the original point at every parameter of their domains, so their lengths add up and the second starts where the first ends. The original curve is not modified.",
 ["inputs"],"all valid curves x split parameters, repeated splits",
 "tests split a few non-rational curves at one or two parameters away from knots",
 ["src/split/mod.rs",C],[("split by knot refinement","src/split/mod.rs Split for NurbsCurve")],["try_split on a curve"])

p("C09","Trimming a curve returns exactly the requested portion",
 "Trimming a curve to a range inside its domain returns a single curve whose domain is that range and which agrees with the original at every parameter of it. A reversed range returns the two complementary pieces in traversal order (from the first bound to the end, then from the start to the second bound), each agreeing with the original. Ranges that touch the domain ends or existing knots are trimmed like any other.",
 ["inputs"],"all valid curves x ordered and reversed ranges, including ranges touching the domain ends and knots",
 "no unit test trims a curve at all; it is only used indirectly by booleans on fixed shapes",
 ["src/trim/mod.rs","src/split/mod.rs"],[("trim by repeated splitting","src/trim/mod.rs")],["try_trim_range on a curve"])

p("C10","Bezier decomposition reproduces the curve span by span",
 "Decomposing a curve yields one single-span curve of the same degree per non-empty knot interval of the domain, in order, each with domain equal to that interval and evaluating to the original point throughout it, so consecutive segments join exactly. The original curve is not modified.",
 ["inputs"],"all valid curves: clamped and unclamped, rational, repeated knots",
 "no test checks decomposition results",
 [C],[("knot refinement to full multiplicity and slicing","src/curve/nurbs_curve.rs try_decompose_bezier_segments")],["try_decompose_bezier_segments"])

p("C11","Interpolated curves pass through their points",
 "A curve interpolated through any sequence of distinct points (2D or 3D, more points than the degree) has the requested degree, is clamped, starts at the first point, ends at the last and passes through every given point in the given order. A periodic curve interpolated through points, for each knot spacing style, passes through every point in order, returns to the first one and joins itself smoothly at the seam; the parameter steps between the points are equal, proportional to the chords or to the square roots of the chords as the style says.",
 ["inputs","configurations"],"all point sequences x degrees x knot styles",
 "tests interpolate one fixed point list and do not evaluate the result",
 [C,"src/curve/knot_style.rs"],[("global interpolation","src/curve/nurbs_curve.rs try_interpolate, try_interpolate_control_points"),("periodic interpolation","src/curve/nurbs_curve.rs try_periodic_interpolate, try_periodic_interpolate_control_points"),("parameter spacing","src/curve/knot_style.rs")],["try_interpolate","try_periodic_interpolate"])

p("C12","Periodic curves close smoothly",
 "A periodic curve built from control points of any degree is closed: the points and all derivatives up to order (degree - 1) at both ends of its domain agree, and interior points are the periodic uniform B-spline of the given control points. Too few control points for the degree is an error.",
 ["inputs"],"all control polygons x degrees",
 "the doctest builds one cubic and does not look at the seam",
 [C],[("control point wrap-around and uniform knots","src/curve/nurbs_curve.rs try_periodic")],["try_periodic","is_closed"])

p("C13","Conic and polyline constructors are geometrically exact",
 "Every point of a constructed circle, arc, ellipse or elliptic arc satisfies the equation of that conic in the plane of the given axes, the curve starts and ends at the points at the requested angles and sweeps the requested angle monotonically in the direction from the x-axis to the y-axis, in 2D and 3D for any centre, orthonormal axes, radii and angle range. A polyline passes through its points in order along straight segments and has their total length.",
 ["inputs"],"all centres, axes, radii and angle ranges; all point sequences",
 "tests build unit-like circles with one set of axes and sample a few points",
 [C],[("rational quadratic arc construction","src/curve/nurbs_curve.rs try_circle, try_ellipse, try_arc, try_ellipse_arc"),("polyline","src/curve/nurbs_curve.rs polyline"),("ray intersection for middle control points","src/misc/ray.rs")],["try_circle","try_arc","try_ellipse","try_ellipse_arc","polyline"])

p("C14","Arc length, length parameterisation and division are mutually consistent",
 "The reported length of a curve equals its true arc length, is unaffected by inversion and knot normalisation, and is additive under splitting. The parameter reported for a length splits off that length within the requested tolerance, dividing by length returns parameters in increasing order whose successive arc distances equal that length up to the division tolerance, and dividing by count returns count+1 parameters from the domain start to its end at equal arc distances.",
 ["inputs"],"all valid curves with non-zero speed x lengths x counts",
 "tests check the length of a circle and polyline and one division of one curve",
 [C,"src/curve/curve_length_parameter.rs"],[("Gauss-Legendre length per Bezier segment","src/curve/nurbs_curve.rs try_length, compute_bezier_segment_length"),("bisection for parameter at length","src/curve/nurbs_curve.rs try_parameter_at_length, compute_bezier_segment_parameter_at_length"),("division","src/curve/nurbs_curve.rs try_divide_by_length, try_divide_by_count")],["try_length","try_parameter_at_length","try_divide_by_length","try_divide_by_count"])

p("C15","Inversion reverses direction and nothing else",
 "Inverting a curve, compound curve or surface keeps its shape and reverses its direction: the inverse at the mirrored parameter (first knot + last knot - t, hence domain start + domain end - t whenever it is clamped) is the original at t, per direction for surfaces. Inverting twice restores the original, flipping a surface in one direction reverses its normals while tracing the same points, and inverting a trimmed surface keeps the same region trimmed.",
 ["inputs"],"all valid curves, compound curves, surfaces and trimmed surfaces",
 "no test inverts a rational or unclamped object or compares pointwise",
 [C,K,S,TS,CC],[("knot reversal","src/knot/knot_vector.rs invert"),("curve/surface/compound inversion","src/curve/nurbs_curve.rs, src/surface/nurbs_surface.rs, src/region/compound_curve.rs, src/surface/trimmed_surface.rs Invertible impls")],["invert","inverse","flip"])

p("C16","Affine maps commute with evaluation",
 "Transforming a curve, compound curve, surface, trimmed surface or region by any affine matrix moves every evaluated point by exactly that matrix, and leaves domain, degree, weights and trimming unchanged; the in-place and the copying form agree.",
 ["inputs"],"all objects x invertible affine matrices (non-uniform scale, shear, reflection, translation)",
 "no unit test transforms a rational curve or a surface and compares points",
 [C,S,TS,CC,RG],[("transform of homogeneous control points","Transformable impls")],["transform","transformed"])

p("C17","Conversions and serialisation preserve the object",
 "Serialising any curve, surface, trimmed surface, compound curve or region and reading it back gives an object that compares equal and evaluates identically, while damaged data is reported rather than dropped. Elevating the dimension embeds the curve in the plane z = 0 with the same parameterisation, dropping weights returns the Euclidean control points with degree and knots as they were, and casting to a wider scalar type evaluates to the same points. The parts an object shows, hands out for change or is taken apart into are exactly the ones it was built from, and option and constraint builders record exactly what they are given.",
 ["inputs"],"all serialisable objects; all curves and surfaces for conversions",
 "three tests serialise one fixed object each",
 [C,S,TS,CC,RG,K],[("serde implementations","serde impls in each file"),("cast / elevate_dimension / dehomogenize","src/curve/nurbs_curve.rs, src/surface/nurbs_surface.rs")],["serde_json round trip","cast","elevate_dimension","dehomogenize"])

p("C18","Bounding boxes contain the geometry",
 "The bounding box of any curve, compound curve or surface with positive weights contains every point it evaluates to, and a box built from two corners in any order or from points has exactly their extents, with matching centre, size, corners and edges. Two boxes intersect exactly when they share a point (up to the tolerance), a box contains exactly the points between its extents, and box trees built over a curve or surface cover it at every level so that traversing two trees never discards a pair of pieces that meet.",
 ["inputs","schedules"],"all curves/surfaces/point sets/box pairs; all tree subdivisions including the randomised split positions",
 "tests check boxes of one or two fixed curves",
 ["src/bounding_box/mod.rs","src/bounding_box/curve_bounding_box_tree.rs","src/bounding_box/surface_bounding_box_tree.rs","src/bounding_box/bounding_box_traversal.rs"],[("box construction and predicates","src/bounding_box/mod.rs"),("tree subdivision and pairwise traversal","src/bounding_box/*_tree.rs, bounding_box_traversal.rs")],["BoundingBox","CurveBoundingBoxTree","SurfaceBoundingBoxTree","BoundingBoxTraversal"])

p("C19","Closest point on a curve is on the curve and not beaten",
 "For every curve and query point the reported closest parameter lies in the curve's domain, the reported closest point is the curve evaluated there, and no point of the curve is closer to the query by more than numerical tolerance when the closest point is well separated from competing local minima. A query point taken on the curve is its own closest point.",
 ["inputs"],"all valid curves (open, closed, rational) x query points near, far and on the curve",
 "tests query a few points against one or two fixed curves",
 [C,"src/closest_parameter/curve_closest_parameter_newton.rs","src/closest_parameter/curve_closest_parameter_problem.rs"],[("coarse sampling then Newton","src/curve/nurbs_curve.rs find_closest_parameter"),("domain constraint of iterates","src/closest_parameter/curve_closest_parameter_newton.rs")],["find_closest_parameter","find_closest_point"])

p("C20","Closest point on a surface is on the surface and not beaten",
 "For every surface and query point the reported closest parameters lie in the surface's domain, the reported closest point is the surface evaluated there, and for query points within the curvature radius of the surface no surface point is closer by more than numerical tolerance. A query point taken on the surface is its own closest point.",
 ["inputs"],"all valid surfaces x query points near and on the surface",
 "tests query one surface at a few points",
 [S,"src/closest_parameter/surface_closest_parameter_newton.rs","src/closest_parameter/surface_closest_parameter_problem.rs"],[("sampling by tessellation then Newton","src/surface/nurbs_surface.rs find_closest_parameter"),("domain constraint","src/closest_parameter/surface_closest_parameter_newton.rs")],["find_closest_parameter","find_closest_point"])

p("C21","Curve-curve intersection reports all and only the real intersections",
 "Every reported intersection of two curves (or of compound curves with curves and compound curves) carries a parameter in each curve's domain whose evaluated points coincide with the reported points and with each other within tolerance. Every well-separated transversal crossing of the two curves in their interiors is reported exactly once, curves that stay apart report none, and swapping the operands swaps the pairs; this holds for every outcome of the solver's internal random choices.",
 ["inputs","schedules"],"all pairs of curves in general position; all sequences of the random subdivision choices",
 "tests intersect a few fixed pairs and mostly count results; the random subdivision is never controlled",
 ["src/intersects/curve_curve/intersection_curve_curve.rs","src/intersects/curve_curve/curve_intersection_bfgs.rs","src/intersects/curve_curve/curve_intersection_problem.rs","src/intersects/curve_curve/intersection_compound_curve.rs","src/intersects/curve_curve/compound_curve_intersection.rs","src/bounding_box/curve_bounding_box_tree.rs"],[("box-tree candidate search","src/bounding_box"),("BFGS refinement and deduplication","src/intersects/curve_curve/*")],["find_intersections on curves and compound curves"])

p("C22","Surface-curve intersection reports all and only the real intersections",
 "Every reported surface-curve intersection carries surface parameters and a curve parameter inside the respective domains whose evaluated points coincide with the reported points and with each other within tolerance. Every well-separated transversal crossing is reported exactly once and a curve that stays away from the surface reports none, for every outcome of the solver's internal random choices.",
 ["inputs","schedules"],"all surface/curve pairs in general position; all random subdivision choices",
 "two doctests intersect one surface with one line",
 ["src/intersects/surface_curve/intersection_surface_curve.rs","src/intersects/surface_curve/surface_curve_intersection_bfgs.rs","src/intersects/surface_curve/surface_curve_intersection_problem.rs","src/bounding_box/surface_bounding_box_tree.rs"],[("box-tree candidate search, BFGS and deduplication","src/intersects/surface_curve/*")],["find_intersections on a surface with a curve"])

p("C23","Point containment agrees with the geometry of the closed curve",
 "For every simple closed curve, closed compound curve or polygon and every point not on its boundary, the containment query answers true exactly when the point is inside, independent of the curve's orientation, of where its seam lies and of internal random choices. Points on the boundary count according to the documented convention (contained), and an open NURBS curve is rejected as an error.",
 ["inputs","schedules"],"all simple closed boundaries x off-boundary points (including points level with vertices and seams) x random choices",
 "tests ask a dozen points for three fixed shapes",
 ["src/contains/contains_curve.rs","src/contains/contains_compound_curve.rs","src/contains/mod.rs","src/misc/polygon_boundary.rs","src/intersects/curve_curve"],[("ray casting through intersections","src/contains/contains_curve.rs"),("winding number","src/misc/polygon_boundary.rs")],["Contains::contains","PolygonBoundary"])

p("C24","Boolean operations compute the set operation",
 "For two simple closed planar curves, compound curves or regions with holes in general position, the region list returned for union, intersection and difference covers exactly the points of the corresponding set operation: a point away from the boundaries belongs to the result iff the set operation says so. The returned regions do not overlap, every returned boundary is closed and connected, and the areas satisfy inclusion-exclusion, for every outcome of internal random choices.",
 ["inputs","configurations","schedules"],"all pairs of simple closed boundaries and regions in general position (crossing, nested, disjoint) x operations x random choices",
 "tests count regions for a few fixed shapes and never test membership",
 ["src/boolean/clip.rs","src/boolean/boolean_curve.rs","src/boolean/boolean_compound_curve.rs","src/boolean/boolean_region.rs","src/boolean/degeneracies.rs","src/boolean/node.rs","src/boolean/vertex.rs"],[("Weiler-Atherton style clipping","src/boolean/clip.rs"),("degeneracy filtering","src/boolean/degeneracies.rs"),("region holes","src/boolean/boolean_region.rs")],["Boolean::union / intersection / difference / boolean"])

p("C25","Compound curves behave as one continuous curve",
 "Building a compound curve from connected spans in any order and direction yields spans that join end to start, tracing each input span exactly once, with a single contiguous parameter domain. Evaluation, length, closest point, closedness, bounding and trimming of the compound curve agree with those of its spans, and trimming to a range returns exactly the portion of the path between the two parameters (through the seam for a reversed range on a closed path).",
 ["inputs","histories"],"all chains of connected curves in any order and orientation; all parameters and trim ranges",
 "tests build a few fixed rectangles and slots",
 [CC,"src/trim/mod.rs","src/region/curve_direction.rs"],[("span connection and knot alignment","src/region/compound_curve.rs new"),("span lookup","src/region/compound_curve.rs find_span, point_at"),("compound trimming","src/trim/mod.rs")],["CompoundCurve methods","try_trim_range on a compound curve"])

p("C26","Surface evaluation, derivatives and normals match the definition",
 "For every valid tensor-product NURBS surface with any pair of degrees, knots and positive weights, the evaluated point is the weighted tensor-product B-spline combination of the control net, the reported partial derivatives are the partial derivatives of that point, and the normal is their cross product (not reversed). Regular sampling of points and normals returns the requested grid spanning the whole domain with each sample equal to the pointwise query.",
 ["inputs"],"all valid surfaces (u degree <, =, > v degree; rational; unclamped) x parameters",
 "doctests only check a few points and normals of simple surfaces with equal degrees",
 [S,K],[("tensor-product evaluation and derivatives","src/surface/nurbs_surface.rs point, derivatives, rational_derivatives"),("grid sampling","src/surface/nurbs_surface.rs regular_sample_points, regular_sample_normals, regular_sample_point_derivatives")],["point_at","normal_at","rational_derivatives","regular_sample_points","regular_sample_normals"])

p("C27","Analytic surface constructors produce the exact surface",
 "Every point of a constructed plane, extrusion, surface of revolution or sphere satisfies its defining equation at every parameter: an extrusion is the profile translated linearly along the given vector, a revolution is the profile rotated rigidly about the given axis through the given angle, a sphere has constant distance to its centre and a plane interpolates its rectangle bilinearly.",
 ["inputs"],"all profiles (rational too), axes, centres, angles in (0, 2pi], vectors, radii",
 "tests compare a few points of a full revolution about a coordinate axis",
 [S],[("constructors","src/surface/nurbs_surface.rs plane, extrude, try_revolve, try_sphere")],["plane","extrude","try_revolve","try_sphere"])

p("C28","Lofted and swept surfaces interpolate their profiles and rail",
 "A lofted surface has every input curve, unified over a common domain, as a curve on it in the given order, beginning with the first and ending with the last curve, for curves with different degrees, knots and control point counts. A swept surface carries rigidly moved copies of the profile along the rail, starting at the rail's start and following it to its end.",
 ["inputs"],"all lists of compatible curves x degrees; all profile/rail pairs",
 "tests loft three similar curves and do not check that the surface contains them",
 [S],[("loft by unification and interpolation","src/surface/nurbs_surface.rs try_loft"),("knot unification","src/surface/nurbs_surface.rs try_unify_curve_knot_vectors"),("sweep by frames","src/surface/nurbs_surface.rs try_sweep")],["try_loft","try_sweep"])

p("C29","Surface refinement, splitting, isocurves and boundaries stay on the surface",
 "Refining the knots of a surface in either direction leaves every evaluated point unchanged and adds exactly the given knots. Splitting in either direction at a parameter inside the domain yields two surfaces that abut there and agree with the original; an isocurve at any parameter (including knots and domain ends) evaluates to the surface along that line, and the four boundary curves are the surface's four edges.",
 ["inputs"],"all valid surfaces x directions x parameters",
 "tests split one surface and never compare points",
 [S,"src/split/mod.rs"],[("surface knot refinement","src/surface/nurbs_surface.rs try_refine_knot"),("isocurve extraction","src/surface/nurbs_surface.rs try_isocurve, try_boundary_curves"),("surface splitting","src/split/mod.rs")],["try_refine_knot","try_split on a surface","try_isocurve","try_boundary_curves"])

p("C30","Surface tessellation is a gap-free mesh on the surface",
 "Tessellating any regular surface adaptively produces a mesh whose every vertex lies on the surface at its reported uv with the unit surface normal there, whose faces tile the whole parameter rectangle exactly once with consistent orientation, with no degenerate or out-of-range indices and no cracks in the interior (each interior edge is shared by exactly two faces). Refining the tolerance keeps these guarantees and the mesh approximates the surface; the regular tessellation gives the requested grid with the same guarantees.",
 ["inputs","configurations"],"all regular surfaces x tessellation options",
 "tests only check that a mesh is produced",
 ["src/tessellation/surface.rs","src/tessellation/surface_tessellation.rs","src/tessellation/adaptive_tessellation_node.rs","src/tessellation/adaptive_tessellation_processor.rs","src/tessellation/adaptive_tessellation_option.rs",S],[("initial grid and neighbour links","src/tessellation/surface.rs"),("adaptive division","src/tessellation/adaptive_tessellation_*.rs"),("triangulation of leaves with shared edge points","src/tessellation/adaptive_tessellation_node.rs, surface_tessellation.rs")],["tessellate","regular_tessellate","SurfaceTessellation accessors"])

p("C31","Constrained tessellation honours its boundary parameters",
 "When boundary constraints prescribe parameters along an edge of the surface, the tessellation's vertices along that edge are exactly those parameters, so two surfaces sharing an edge and its constraints produce matching boundary vertices, and all guarantees of the unconstrained tessellation continue to hold.",
 ["inputs","configurations"],"all surfaces x constraint lists on any subset of the four edges",
 "no test inspects constrained boundaries",
 ["src/tessellation/boundary_constraints.rs","src/tessellation/surface.rs","src/tessellation/mod.rs","src/tessellation/surface_tessellation.rs"],[("boundary constraint propagation","src/tessellation/boundary_constraints.rs, adaptive processor")],["constrained_tessellate"])

p("C32","Trimmed surface tessellation covers exactly the trimmed region",
 "Tessellating a trimmed surface yields a mesh whose vertices lie on the underlying surface, whose boundary follows the trimming curves, and which covers in parameter space exactly the region inside the exterior trim and outside every interior trim (area equal to that of the region up to the discretisation of its boundary), whatever the orientation of the trim curves. Trimming by projecting a curve or by mapping closest points gives trims whose surface images follow the given curves.",
 ["inputs","configurations"],"all trimmed surfaces with disjoint simple trims x options",
 "examples only; no test checks coverage",
 [TS,"src/tessellation/trimmed_surface.rs","src/tessellation/trimmed_surface_constraints.rs"],[("constrained Delaunay triangulation of the trimmed parameter region","src/tessellation/trimmed_surface.rs"),("trim construction","src/surface/trimmed_surface.rs")],["TrimmedSurface::tessellate, constrained_tessellate, try_projection, try_map_closest_point"])

p("C33","Region triangulation covers exactly the region",
 "Triangulating a planar region with any number of disjoint holes produces triangles that lie inside the exterior and outside every hole, do not overlap, reference valid vertices on or inside the boundary and whose total area equals the region's area up to the chordal error of its discretised boundary.",
 ["inputs","configurations"],"all regions with simple disjoint boundaries x tolerances",
 "tests check nothing about triangulated regions except through boolean area checks on fixed shapes",
 ["src/tessellation/tessellation_region.rs","src/tessellation/tessellation_compound_curve.rs","src/polygon_mesh/mod.rs",RG],[("constrained triangulation with hole removal","src/tessellation/tessellation_region.rs"),("mesh area","src/polygon_mesh/mod.rs")],["Region::tessellate","PolygonMesh::area"])

p("C34","Curve tessellation stays on the curve and within tolerance",
 "Tessellating a curve or compound curve returns points of the curve in increasing parameter order from its start to its end, and the curve never departs from the resulting polyline by more than a small multiple of the requested tolerance, for every outcome of the internal random choices; straight curves yield no spurious detours.",
 ["inputs","schedules"],"all valid curves x tolerances x random choices",
 "tests tessellate two fixed curves",
 ["src/tessellation/tessellation_curve.rs","src/tessellation/tessellation_compound_curve.rs","src/misc/trigonometry.rs"],[("adaptive bisection with randomised midpoint","src/tessellation/tessellation_curve.rs")],["tessellate on curves"])

p("C35","Frenet frames are orthonormal and follow the curve",
 "Frames computed along a regular space curve are returned one per parameter in order, positioned on the curve, with unit mutually orthogonal axes forming a right-handed system whose tangent points along the curve's direction, and consecutive frames neither flip nor spin (the frame as a whole turns no further than the tangent does), including on straight, almost straight and inflecting portions.",
 ["inputs"],"all regular space curves x parameter lists",
 "no test inspects frames",
 [C,"src/misc/frenet_frame.rs"],[("rotation minimising frame propagation","src/curve/nurbs_curve.rs compute_frenet_frames")],["compute_frenet_frames"])

p("C36","No panic, overflow, non-finite value or malformed object on valid input",
 "Any sequence of public operations on valid finite objects, in single or double precision, ends each time in a value or a reported error: it never panics, overflows, indexes out of bounds, overflows the stack or runs on without an answer, and a successful result never holds NaN or infinite values. Given admissible arguments (parameters inside the domain, knots inserted up to the multiplicity of the degree, positive tolerances) the resulting curves, surfaces, compound curves and regions are well formed: ordered finite knots over a non-empty domain, as many as the control points and the degree demand, none repeated beyond what the degree allows. Parameters outside the domain may be refused but cause neither panics nor hangs.",
 ["histories","inputs"],"all operation histories over valid curves, surfaces, compounds, regions and trimmed surfaces with hostile but valid geometry (repeated knots, extreme weights, collinear or coincident control points, tiny and huge scales), f32 and f64",
 "tests run single operations on benign input; panics and arithmetic overflow in rarely taken branches are not reachable from them",
 [C,S,K,CC,"src/split/mod.rs","src/trim/mod.rs","src/tessellation","src/boolean","src/intersects"],[("error reporting by Result across the API","all modules")],["all public operations under overflow checks and debug assertions"])

p("C37","Geometric primitives return geometrically correct answers",
 "Binomial coefficients, three-point orientation, whether two segments cross or touch (overlaps along a common line aside) or two rays are parallel, the closest point on a segment, winding containment in a polygon and mesh areas agree with exact arithmetic at every scale, and the orientation and intersection predicates are antisymmetric or symmetric as geometry requires.",
 ["inputs"],"all finite inputs including near-degenerate ones",
 "tests cover a few hand-picked configurations",
 ["src/misc/binomial.rs","src/misc/ray.rs","src/misc/line.rs","src/misc/orientation.rs","src/misc/trigonometry.rs","src/misc/polygon_boundary.rs","src/polygon_mesh/mod.rs","src/misc/end_points.rs"],[("primitives","src/misc/*")],["Binomial","Ray","Line","orientation","PolygonBoundary","PolygonMesh"])

p("C38","Operations are repeatable, reentrant and free of side effects",
 "Running an operation again on the same objects (evaluation, division, construction, tessellation, intersection, region operations) gives the same result to the last bit, given the same random choices where it flattens or intersects curves and whatever they are elsewhere; so does running it from several threads at once. It leaves its operands as they were and holds on to no memory afterwards.",
 ["histories","schedules"],"all operands; any number of repetitions; any interleaving of several threads",
 "tests run each operation once, on one thread, and never look at the operands again",
 ["src/curve/nurbs_curve.rs","src/surface/nurbs_surface.rs","src/boolean/clip.rs","src/boolean/node.rs","src/tessellation/mod.rs","src/misc/binomial.rs"],[("operations","src/*")],["NurbsCurve","NurbsSurface","CompoundCurve","Region","TrimmedSurface"])

p("C39","Single precision gives the same answers as double precision to its accuracy",
 "What the library computes on objects with f32 coordinates is what the same geometry gives in double precision up to an error proportional to the f32 resolution at the size of the input: points and derivatives of curves and surfaces, constructed arcs, circles, ellipses, spheres and interpolated or polyline curves, shape-preserving edits (knot insertion, elevation, splitting, reversal, transformation), lengths, closest points, intersections (reported ones lie on both operands and every clear crossing is reported), tessellations within their tolerance, trimmed areas and the membership of points in boolean results. It neither fails nor loses parts where double precision succeeds with room to spare.",
 ["inputs"],"all f32 curves, surfaces and regions of moderate size and clear (non-degenerate) configuration",
 "the tests run in double precision only; the single-precision instantiation of every routine is never executed by them",
 [C,S,K,"src/intersects","src/boolean","src/tessellation","src/trim","src/misc/floating_point.rs"],[("generic over FloatingPoint","src/*")],["NurbsCurve<f32, D>","NurbsSurface<f32, D>","Region<f32>","TrimmedSurface<f32>"])

for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
