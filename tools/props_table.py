NOTES = ("Every check runs ./check.sh <id>: it compiles /repo's current tree with a rustc_private driver that dumps the "
         "resolved, type-checked MIR (nightly, --features serde,log), and decides the property on that dump. Nothing of "
         "curvo is executed. See DESIGN.md.")
PENDING = "check not built yet (work in progress)"

P('C01', 'Serialized geometry keeps every field',
  "Serializing a NURBS curve, NURBS surface, trimmed surface, compound curve, region or knot vector writes every one of its components, each under its own key and from its own value, and deserializing reads each component back from that same key into that same component. A document in which a component is missing (an absent optional exterior reads as none), repeated or malformed is rejected with an error; it is never silently replaced by a default or by another component.",
  ['inputs', 'programs'], "every value of the six serializable types and every document, for any serde format",
  "three round-trip tests use one curve, one surface and one trimmed surface whose exterior is None; missing, repeated and malformed fields, compound curves, regions and interiors are never exercised",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/surface/trimmed_surface.rs', 'src/region/compound_curve.rs', 'src/region/mod.rs', 'src/knot/knot_vector.rs'],
  [('hand written Serialize/Deserialize impls', 'src/curve/nurbs_curve.rs:2200, src/surface/nurbs_surface.rs:1504, src/surface/trimmed_surface.rs:202, src/region/compound_curve.rs:278')],
  na=PENDING)

P('C02', 'A failed in-place edit leaves the object unchanged',
  "Adding a knot, removing a knot, refining knots, clamping a curve, or refining the knots of a surface either succeeds or returns an error with the receiver exactly as it was before the call. No path returns an error after the receiver's knots, degree or control points have been changed.",
  ['inputs', 'histories'], "every receiver, every argument, every error path of the fallible in-place operations",
  "the tests only call these operations where they succeed; no test looks at the receiver after an error",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs'],
  [('guards precede the first write', 'NurbsCurve::try_add_knot, try_remove_knot, try_refine_knot, try_clamp; NurbsSurface::try_refine_knot')],
  na=PENDING)

P('C03', 'An internal failure is never reported as success',
  "When a fallible step inside a fallible library operation fails (a trim, split, refinement, loft unification, containment query, length computation, interpolation solve, boolean clip of one component, ...), the operation itself returns an error. No operation swallows the failure of a step and returns a success built without it, except the documented best-effort searches that drop one candidate of many.",
  ['inputs', 'fault_sequences'], "every call of a fallible step on every path of every library function",
  "tests only use inputs for which every inner step succeeds",
  ['src/boolean/', 'src/contains/', 'src/curve/nurbs_curve.rs', 'src/surface/', 'src/trim/mod.rs', 'src/split/mod.rs', 'src/bounding_box/', 'src/intersects/', 'src/region/compound_curve.rs', 'src/tessellation/'],
  [('the ? operator, collect into Result, and explicit Err arms', 'whole crate')],
  na=PENDING)

P('C04', 'Modelling operations are pure functions of their inputs',
  "Constructing, evaluating, editing, splitting, tessellating surfaces, serializing and combining geometry depend only on the arguments: no randomness, clock, environment, file, console, global or thread-local state, and no hash-order iteration. Only adaptive curve tessellation and the curve-side subdivision of the intersection search (and what is built on them) may draw random numbers.",
  ['programs', 'histories', 'schedules'], "every public function, every call history and thread interleaving",
  "a test sees one run; it cannot show that no other call history or thread changes a result",
  ['src/'], [('no effectful callee is reachable', 'call graph of the crate'), ('random subdivision confined', 'src/tessellation/tessellation_curve.rs, src/bounding_box/curve_bounding_box_tree.rs')],
  na=PENDING)

P('C05', 'Geometry values are plain, thread-safe data',
  "Curves, surfaces, trimmed surfaces, compound curves, regions, knot vectors, meshes, bounding boxes, intersections, tessellations and options are owned data: they can be sent to and shared between threads, contain no interior mutability, shared ownership or raw pointers, and the library contains no unsafe code. A value cannot change while only shared references to it exist, and dropping a value frees everything it holds.",
  ['schedules', 'programs'], "every program that uses the library, every interleaving",
  "auto traits, interior mutability and unsafe code are properties of types and source, not of any one run",
  ['src/'], [('field types', 'all public types'), ('weak links in the clip lists', 'src/boolean/node.rs')],
  na=PENDING)

P('C06', 'Booleans of nested or disjoint outlines follow set algebra',
  "When two closed outlines do not cross: if the first contains the second, union is the first, intersection is the second and difference is the first with the second as a hole; if the second contains the first, union is the second, intersection is the first and difference is empty; if neither contains the other, union is both, intersection is empty and difference is the first; if each claims to contain the other the operation fails. `union`, `intersection` and `difference` on any pair of operand kinds perform the operation they are named after with the operands in the given order.",
  ['inputs'], "every pair of operands (curve, compound curve, region) and every operation",
  "the boolean tests only cover crossing circle/rectangle outlines",
  ['src/boolean/clip.rs', 'src/boolean/mod.rs', 'src/boolean/boolean_curve.rs', 'src/boolean/boolean_compound_curve.rs', 'src/boolean/boolean_region.rs'],
  [('no-intersection table', 'src/boolean/clip.rs:144'), ('trait defaults', 'src/boolean/mod.rs')],
  na=PENDING)

P('C07', 'Crossing booleans walk the outlines by entry and exit status',
  "When outlines cross, crossings alternate between entering and leaving along each outline, starting with 'entering' exactly when that outline's first point lies outside the other one; union reverses the roles on both outlines, difference on the first only, intersection on neither. From an entering crossing the result follows the outline forward and from a leaving crossing backward, switching outline at the next crossing, and each piece is cut from the outline its two crossings belong to, from the entering to the leaving parameter. Places where the outlines only touch are not crossings; a tangency counts as one only where the number of crossings would be odd otherwise.",
  ['inputs'], "every pair of crossing outlines and every operation",
  "three crossing configurations are tested; which of them exercise each status combination is accidental",
  ['src/boolean/clip.rs', 'src/boolean/node.rs', 'src/boolean/status.rs'],
  [('status initialisation, inversion and walk', 'src/boolean/clip.rs:240-370')],
  na=PENDING)

P('C08', 'Solver and tessellation options are honoured',
  "Every option the caller sets reaches the computation it names, and defaults apply only when the caller gave none. For intersections: the bounding trees are divided down to the operand's knot domain (per parameter for surfaces) over the knot-domain division, the solver stops when the step or the cost change is below the step-size or cost tolerance, at most the given maximum of iterations is run, and points farther apart than the minimum distance are not reported; containment uses the same division, minimum distance (also for points on the outline) and maximum. Boolean, containment, compound, region and trimmed-surface operations hand the options they were given unchanged to the operations they use. For adaptive tessellation: a cell always divides below the minimum depth, never at or beyond the maximum, and in between exactly when normals at neighbouring corners differ by more than the tolerance (unless boundary constraints or degenerate normals forbid it); curved directions get at least the minimum divisions in u and in v; the normal tolerance is also used for trimming curves; the tolerance of a curve, compound or region tessellation reaches every curve. Builder methods change exactly the option they name.",
  ['configurations', 'inputs'], "every option value and every entry point that accepts options",
  "tests pass None or defaults nearly everywhere, so a dropped, swapped or hard-coded option is invisible",
  ['src/intersects/', 'src/boolean/', 'src/contains/', 'src/tessellation/'],
  [('options structs and their consumers', 'src/intersects/curve_curve/curve_intersection_solver_options.rs, src/tessellation/adaptive_tessellation_option.rs')],
  na=PENDING)

P('C09', 'Whole-object operations reach every component',
  "Transforming, inverting, casting to another precision, transposing, raising the dimension of or flipping an object processes every component it has: every control point with its weight, every span, the exterior and every interior, both knot vectors, every vertex, normal, uv and face. No component is skipped, filtered out, duplicated or left unprocessed, and components that the operation does not concern are carried over unchanged. Transforming a rational curve or surface moves its (dehomogenized) control points by the matrix and keeps their weights; inverting describes the same shape traversed backwards over the same parameter domain, for curves, compound curves (whose spans still follow each other), surfaces (both directions) and trimmed surfaces (whose trimming curves stay at the same place on the surface).",
  ['inputs'], "every composite object of every size",
  "doctests invert or cast one small object; regions with several interiors, trimmed surfaces and meshes are never cast, inverted or transformed in tests",
  ['src/curve/nurbs_curve.rs', 'src/surface/', 'src/region/', 'src/tessellation/surface_tessellation.rs', 'src/bounding_box/mod.rs', 'src/misc/', 'src/knot/knot_vector.rs'],
  [('transform/invert/cast/flip implementations', 'Transformable, Invertible and cast impls')],
  na=PENDING)

P('C10', 'Surface u and v never get mixed up',
  "In every surface operation the u parameter is only ever located in, clamped to, divided over or compared with the u knots, u degree, u domain and u option, and the v parameter with the v ones; operations in the u direction change only u data and leave v data as it was, and vice versa. On surfaces whose degrees, knots and domains differ between u and v, points, derivatives, normals, sampled grids, isocurves, border curves, split and refined surfaces are those of the definition, direction by direction; a box tree cell is divided in the direction it carries and while it is wider than that direction's own tolerance; the closest-point solver is given each direction's own domain and closedness and steps in a direction by the slope and curvature of that direction; the surface-curve search starts inside its cell and reports each parameter in its place; tessellation grids have the divisions, knots and constraints of their own direction.",
  ['inputs'], "every surface with different u and v degrees, knots or domains, every parameter pair",
  "test surfaces are symmetric or have the same [0,1] domain in both directions, where a swap cannot be seen",
  ['src/surface/nurbs_surface.rs', 'src/split/mod.rs', 'src/tessellation/', 'src/closest_parameter/', 'src/bounding_box/surface_bounding_box_tree.rs', 'src/intersects/surface_curve/'],
  [('paired u_/v_ fields and parameters', 'NurbsSurface, BoundaryConstraints, AdaptiveTessellationOptions')],
  na=PENDING)

P('C11', 'Reported intersections lie in domain and within tolerance',
  "Every intersection that is reported between two curves, between a surface and a curve, or between compound curves has each of its parameters inside the knot domain (end points included) of the object it belongs to, and the points evaluated on the two objects at those parameters are closer than the configured minimum distance. The reported point on each object is that object's point at the reported parameter, and each parameter, point and curve is reported on the side of the operand it belongs to (swapping exchanges the sides). What the solver finds is not lost: every such candidate is reported, except that of several candidates at the same place only the closest is, and that a crossing found on both spans at a joint of a compound curve is reported once; every span is searched under the options given. The solver minimises the squared distance between the two points and is given its true gradient.",
  ['inputs', 'configurations'], "every pair of operands and every solver option",
  "tests count intersections for a few transversal pairs; solver runs that leave the domain or converge to a distant local minimum are not exercised",
  ['src/intersects/', ],
  [('filters after the solver', 'src/intersects/curve_curve/intersection_curve_curve.rs, src/intersects/surface_curve/intersection_surface_curve.rs, src/intersects/curve_curve/intersection_compound_curve.rs')],
  na=PENDING)

P('C12', 'Meshes are well formed',
  "In every surface tessellation the points, normals and uvs arrays have the same length and entry i of each belongs to the same surface point, with a normal of unit length wherever the surface has one; every face index refers to an existing vertex, and the faces of a leaf cell cover its outline exactly once, all turning the same way. The mesh of a region or trimmed surface keeps a triangle exactly when its centre lies inside the exterior and inside no interior. The polygon mesh of a region, and the sum of meshes, keep every vertex and every face of their parts with face indices shifted by the number of vertices before them, and the triangles of a mesh are its faces' vertices in face order.",
  ['inputs', 'configurations'], "every surface, trimmed surface, region, option and constraint",
  "no test inspects a mesh",
  ['src/tessellation/', 'src/polygon_mesh/mod.rs'],
  [('lock-step pushes and index bookkeeping', 'src/tessellation/surface_tessellation.rs, src/tessellation/trimmed_surface.rs, src/tessellation/tessellation_region.rs, src/polygon_mesh/mod.rs, src/surface/nurbs_surface.rs regular_tessellate')],
  na=PENDING)

P('C13', 'Invalid curve data is rejected at construction',
  "A curve is only created from caller-supplied data when there are more control points than the degree and exactly control points + degree + 1 knots; otherwise an error is returned. The curve keeps the degree and control points as given and stores the knots in ascending order. Constructors and operations asked for the impossible return an error and leave the object as it was: too few points for the degree of an interpolated or periodic curve, an arc whose end is not past its start, division by a length that is not positive or not shorter than the curve, a position past the curve's length, adding a knot outside the knot range, removing a knot that is absent or that lies at or outside the ends of the curve's domain, lofting no curves, trimming curves asked for with none given or with one that fails. Valid data is not rejected and what is built has counts that fit its degree; elevating to an equal or lower degree gives the curve unchanged.",
  ['inputs'], "every degree, control point list, knot list and parameter",
  "doctests and tests only construct valid curves",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/split/mod.rs', 'src/trim/mod.rs'],
  [('guards with early error return', 'NurbsCurve::try_new, try_interpolate, try_periodic_interpolate, try_split, ...')],
  na=PENDING)

P('C14', 'Iterations are bounded',
  "Every iterative solver run (closest parameter on curves and surfaces, curve-curve and surface-curve intersection) has an explicit maximum of iterations, which for intersections is never more than the caller's maximum; one line search tries at most as many points as iterations are left and never gives iterations back; the containment search of a closed curve evaluates at most the maximum number of points per piece. Adaptive surface tessellation divides cells from depth 0, children one deeper than their parent, and never divides a cell at the maximum depth. Recursive curve subdivision (adaptive curve tessellation, trimming curve tessellation) recurs only on clearly smaller parts of its range and not at all below a stopping width; bounding trees divide strictly inside their range and stop at their tolerance. The search for the parameter at a length ends even where no parameter reaches the tolerance.",
  ['inputs', 'configurations'], "every input, including degenerate and non-converging ones",
  "a test that hangs is an anecdote; absence of unbounded search for all inputs cannot be sampled",
  ['src/closest_parameter/', 'src/intersects/', 'src/tessellation/', 'src/bounding_box/'],
  [('Executor::configure max_iters', 'curve and surface find_closest_parameter, find_intersections'), ('max_depth test', 'src/tessellation/adaptive_tessellation_node.rs should_divide')],
  na=PENDING)

P('C15', 'Closest parameters stay inside the domain',
  "The parameter returned by the closest-parameter searches on curves and surfaces lies in the knot domain: after every Newton step the parameter is brought back, by wrapping around on a closed curve or closed surface direction and by clamping to the nearer end on an open one. Wrapping maps a parameter below the start to the corresponding distance below the end, and a parameter past the end to the corresponding distance past the start.",
  ['inputs'], "every query point and every open or closed curve or surface, including query points for which a Newton step overshoots by any amount",
  "one curve and one surface query are tested, both converging inside the domain",
  ['src/closest_parameter/curve_closest_parameter_newton.rs', 'src/closest_parameter/surface_closest_parameter_newton.rs'],
  [('constrain', 'curve_closest_parameter_newton.rs next_iter; surface_closest_parameter_newton.rs constrain')],
  na=PENDING)

P('C16', 'Bounding boxes and their overlap test are conservative',
  "The bounding box of a curve (its control points, dehomogenized), compound curve (every span), surface or point set is the smallest box covering all of those points in every coordinate. Two boxes are reported as not intersecting exactly when some coordinate separates them by more than twice the tolerance, in a way that does not depend on the order of the two boxes; a point is contained exactly when it lies between min and max inclusive in every coordinate. The paired subdivision search examines every combination of children and keeps every overlapping pair, never with a negative tolerance, and passes on the error of a failed division; a tree is divided strictly inside its own domain, both parts are kept with the same stopping tolerance, and its box is the box of its own object.",
  ['inputs'], "every pair of boxes and every subdivision pair",
  "two 2-D doctests with one overlapping and one disjoint pair",
  ['src/bounding_box/'],
  [('BoundingBox::intersects/contains/new_with_points', 'src/bounding_box/mod.rs'), ('pair push', 'src/bounding_box/bounding_box_traversal.rs')],
  na=PENDING)

P('C17', 'Polygon containment counts crossings symmetrically',
  "Point-in-polygon containment is decided by signed crossings of every edge of the closed polygon, including the edge from the last vertex back to the first: an upward edge with the point strictly on its left adds one, a downward edge with the point strictly on its right subtracts one, an edge counting its lower end but not its upper end, and the point is inside exactly when the sum is not zero. Two segments intersect exactly when neither has both ends strictly on one side of the other and they are not on one line, whichever is given first; touching ends count. The turn direction of three points is the sign of the exact predicate on those three points.",
  ['inputs'], "every polygon and point; every relative order of the coordinates involved",
  "one doctest with a handful of points",
  ['src/misc/polygon_boundary.rs', 'src/misc/line.rs', 'src/misc/orientation.rs'],
  [('winding number', 'src/misc/polygon_boundary.rs'), ('orientation table', 'src/misc/line.rs')],
  na=PENDING)

P('C18', 'Trimming and splitting return the right pieces in order',
  "Splitting a curve at a parameter (clamped to the domain) returns the part before it and then the part after it: the head keeps every knot below the parameter and ends with degree + 1 copies of it, the tail begins with degree + 1 copies and keeps every knot above it, also when the parameter is already a knot of any multiplicity, and their control points are the matching runs of the refined control points. Splitting a surface does this to every row of control points in the requested direction and leaves the other direction as it was. Trimming a curve to a range with ascending parameters returns only what lies between them; with descending parameters the tail from the first parameter to the end followed by the head from the start to the second. Trimming a compound curve returns, in the order of its spans, exactly the parts inside the range (ascending) or outside it (descending), whole spans whole, also when a parameter falls exactly on a joint.",
  ['inputs'], "every curve, compound curve and parameter pair in either order",
  "one split doctest; trimming is only exercised indirectly by boolean tests",
  ['src/split/mod.rs', 'src/trim/mod.rs'],
  [('piece selection', 'src/trim/mod.rs, src/split/mod.rs')],
  na=PENDING)

P('C19', 'Control-point weights are handled homogeneously',
  "Rational data is stored as coordinates times weight next to the weight. Every query for Cartesian data (control points of curves and surfaces, points on them, weights, bounding boxes, the polyline of a degree-one curve, whether a curve is closed) divides each coordinate by its own weight. Operations that build rational data from a rational profile or trimming curve (extrusion, revolution, trimming by closest point or by projection, which takes the nearest hit) work on the Cartesian points and store each result times the weight it came with.",
  ['inputs'], "every control point and weight, in particular weights other than one",
  "most tests use weight one, for which a missing multiplication or division is invisible",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs'],
  [('weighted construction', 'try_circle/try_ellipse_arc, try_revolve'), ('dehomogenize', 'src/curve/nurbs_curve.rs:1990')],
  na=PENDING)

P('C20', 'Adaptive tessellation neighbours match and split evenly',
  "In the surface tessellation the initial cells are numbered in order, have their corners in left-bottom, right-bottom, right-top, left-top order and tile the surface domain, with the knots (for a linear direction) and the parameters of boundary constraints among the grid lines of their own direction. Every cell is linked to the cell across each of its four edges when there is one and to none at the border. With boundary constraints exactly the vertices on a constrained side are replaced, by the nearest of the constraint points of a side they lie on. When a cell is divided, its two children tile it, keep its corners, share the two mid points evaluated at the middle of the cut edges, keep its outer neighbours on the sides they inherit and are each other's neighbour across the division; both children are examined one level deeper with the direction alternated. The vertices listed along an edge of a divided cell are those of its children on that edge in outline order, and a leaf lists per edge its own corner followed by exactly the neighbour's vertices strictly inside that edge, in outline order.",
  ['inputs', 'configurations'], "every division count, surface and refinement history",
  "no test looks at tessellation topology",
  ['src/tessellation/surface.rs', 'src/tessellation/adaptive_tessellation_processor.rs', 'src/tessellation/adaptive_tessellation_node.rs'],
  [('north/south/east/west', 'src/tessellation/surface.rs'), ('child construction', 'src/tessellation/adaptive_tessellation_processor.rs iterate')],
  na=PENDING)

P('C21', 'Containment of holes and outlines agrees with its boundary rule',
  "Asking whether a point is inside a curve fails with an error when the curve is not closed (its first and last points apart); for a closed curve or compound curve the answer is false outside the outline's bounding box, true when the closest point of the outline is closer than the configured minimum distance, and otherwise the parity of the crossings of one ray from the point to the right, summed over every span; a failing ray is an error. A piece of the outline counts as crossed exactly when its ends are on different sides of the ray (an end level with the ray always counting as on the same side) and it crosses not left of the point, so the answer does not depend on the direction of the outline, and the crossing is searched in the half that contains it.",
  ['inputs'], "every outline and point",
  "a handful of boundary cases are tested",
  ['src/contains/'], [('closed guard, box test, parity', 'src/contains/contains_curve.rs, src/contains/contains_compound_curve.rs')],
  na=PENDING)

P('C24', 'Booleans of regions with holes follow set algebra',
  "The union, intersection and difference of a region with a curve, a compound curve or another region cover exactly the union, intersection or difference of the two areas, where the area of a region is its exterior without its interiors: whatever lies inside a hole of one operand and belongs to the other is part of a union, whatever lies in a hole of the second operand stays in a difference, and parts that lie apart are all returned. The regions returned do not overlap, the holes of each lie inside its exterior, and each hole is listed once.",
  ['inputs'], "all regions with any number of holes, every position of the second operand and its holes, every operation",
  "one test without holes; holes on both sides and islands inside holes are never sampled",
  ['src/boolean/boolean_region.rs'], [('combination of the booleans of exteriors and interiors', 'src/boolean/boolean_region.rs boolean'), ('holes of the parts', 'src/boolean/boolean_region.rs distribute_interiors_to_regions')],
  na=PENDING)

# ---- numeric properties -------------------------------------------------------------------
P('C22', 'Compound curves keep and join every span',
  "A compound curve made from curves that form one chain, open or closed, listed in any order and each in any direction, holds every one of them exactly once, each starting where the one before it ends and with the shape it had (turned round where needed). Its parameters start at 0 and run on from span to span without gap or overlap, each span keeping the width and spacing of its knots. No spans make an empty compound curve; one curve makes a compound curve of that curve; collecting keeps the spans as they are. The length is the sum of the lengths of all spans, the closest point is the closest of all spans, and a failing span fails the query; the curve is closed exactly when its last span ends where its first one starts.",
  ['inputs'], "every list of curves forming a chain, every order and orientation, every query",
  "tests join two or three spans in their natural order; order and direction of the list are quantified over",
  ['src/region/compound_curve.rs', 'src/region/curve_direction.rs'],
  [('greedy joining and knot alignment', 'src/region/compound_curve.rs new'), ('kind of a connection', 'src/region/curve_direction.rs')],
  na=PENDING)

P('C23', 'Primitive shapes are exact',
  "Circles, arcs, ellipses and elliptical arcs lie exactly on the ellipse of the given centre and axes, start and end at the given angles, have those as their domain and pass each knot at its angle. A polyline visits its points in order along straight segments, parametrised by its length (or the fraction of it). A periodic curve repeats its first points over uniform knots. A plane spans the centre plus and minus its axes. An extrusion is the profile, weights included, moved along the translation. A surface of revolution is the profile turned right-handedly around the axis by the given angle (up to a full turn), whatever the length of the axis and even if points of the profile lie on it; a sphere has all its points at the radius from its centre and its poles on the axis.",
  ['inputs'], "all centres, axes, radii, points, profiles and translations; angles at every number of pieces", "one doctest each, at axis-aligned unit shapes",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/misc/ray.rs'],
  [('constructors', 'NurbsCurve::polyline, try_periodic, try_circle, try_ellipse, try_arc, try_ellipse_arc; NurbsSurface::plane, extrude, try_revolve, try_sphere')],
  na=PENDING)
P('C25', 'Frames and sweeps follow the rail',
  "Every frame computed along a curve is at the point of the curve at its parameter, with the unit tangent there, a unit normal across it and the binormal tangent x normal; from one frame to the next the normal turns only by the least rotation that takes one tangent to the other, so frames of a straight curve are all alike, whichever way it points. The placement of a frame maps the origin to its position, z to its tangent and y to its normal, as a rotation. A swept surface contains the profile in every placement, in order, the placements being those of frames spaced evenly from the start to the end of the rail.",
  ['inputs'], "all rails, profiles and parameters", "no test; an example sweeps one profile",
  ['src/curve/nurbs_curve.rs', 'src/misc/frenet_frame.rs', 'src/surface/nurbs_surface.rs'],
  [('rotation minimizing frames', 'NurbsCurve::compute_frenet_frames'), ('placement', 'FrenetFrame::matrix'), ('sweep', 'NurbsSurface::try_sweep')],
  na=PENDING)
P('C26', 'The closest point is never farther than where the search started',
  "The closest point found on a curve or surface is the point at the parameter found, that parameter lies in the domain, and the point is never farther from the target than any of the sampled points the search starts from (on a surface, than any vertex of the tessellation it starts from), nor than the best point its iteration reached, wherever the iteration ends. The search starts where the samples are closest. The iteration follows slope and curvature of the distance: on curves C'.(C-P) and C''.(C-P) + C'.C', on surfaces the corresponding two by two system with all mixed terms, and on surfaces a step that would raise the distance is not taken. A failed search gives an error, not a point.",
  ['inputs'], "all curves, surfaces and targets, wherever the iteration ends",
  "doctests ask for the closest point on a circle and on one surface; the iteration converges in all of them",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/closest_parameter/'],
  [('Newton may end farther away than it started', 'NurbsCurve::find_closest_parameter'), ('steps', 'CurveClosestParameterNewton, SurfaceClosestParameterNewton'), ('derivatives', 'CurveClosestParameterProblem, SurfaceClosestParameterProblem')],
  na=PENDING)
P('C27', 'Curve tessellations run along the curve',
  "The polyline that tessellates a curve starts at the start of the curve, ends at its end, and has only points of the curve in between, in the order of the parameter, whatever the random probes of the subdivision are and however short the domain is; it is refined where the curve bends, and never coarser for a smaller tolerance. A polyline curve gives its corners. A compound curve gives the vertices of its spans in order, every joint once, and closes exactly if the curve does, every span with the tolerance asked for. The tessellation of a trimming curve runs from its start to its end too, through every corner of a polyline, and carries the point and the normal of the surface at every uv.",
  ['inputs'], "all curves, compound and trimming curves, tolerances and random probes",
  "no test looks at the vertices of a tessellated curve", ['src/tessellation/tessellation_curve.rs', 'src/tessellation/tessellation_compound_curve.rs', 'src/tessellation/trimmed_surface.rs'],
  [('recursive subdivision', 'tessellate_adaptive, iterate_uv_curve_tessellation'), ('joints', 'Tessellation for CompoundCurve')],
  na=PENDING)
P('C30', 'Evaluation agrees with the NURBS definition',
  "For every parameter in the domain, the point, tangent, second derivative and higher derivatives returned for a curve, compound curve or surface equal those of the rational B-spline with its degree, knots and weighted control points (the Cox-de Boor basis and the quotient rule), up to floating point error. This includes the ends of the domain, knots of any multiplicity, unclamped knot vectors, domains that do not start at zero and different degrees and domains in u and v. Surface normals are the cross product of the u and the v derivative. Regular sampling of curves and surfaces (points, derivatives, normals, mesh points and uvs) gives the values at equally spaced parameters with both ends included. Domains, knot multiplicities, span lookup, parameter clamping, knot normalisation, weights and dehomogenized control points are those of the definition.",
  ['inputs'], "all curves, surfaces, parameters", "a few sampled points",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/knot/knot_vector.rs'],
  [('basis functions', 'src/knot/knot_vector.rs:189')],
  na="Quantifies over real values of recurrences (Cox-de Boor); no sound static argument in reach bounds the numerical result. Only its structural clauses (u/v separation, weight pairing) are claimed, under C10 and C19.")
P('C31', 'Knot insertion, removal, elevation and splitting keep the shape',
  "Inserting one or several knots (curves, and surfaces in u or v), clamping, and raising the degree never change the points or the parameterisation of a curve or surface, and keep its domain; the resulting knots are the old ones plus exactly those inserted. Removing a knot removes it as often as that is possible without moving the curve by more than the tolerance, no oftener, and reports how often. Bezier pieces, split halves, trimmed pieces, isocurves and boundary curves are exactly the corresponding parts of the original, with its parameters.",
  ['inputs'], "all curves, surfaces and knots", "one doctest for removal",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs'],
  [('Boehm / Oslo / A5.x algorithms', 'src/curve/nurbs_curve.rs')],
  na="Equality of two piecewise-rational functions over the reals; needs algebra over runtime knots and loop-carried numerical state, not visible in program structure.")
P('C32', 'Interpolation passes through the given points',
  "An interpolating curve passes through every given point, in order, from the first one at its start to the last one at its end, with the degree asked for, wherever the points lie and however unevenly they are spaced; a periodic one passes through every given point in order and closes smoothly (up to the derivative before its degree) for every knot style. A lofted surface contains every curve it is lofted through, in order, each at one v and with its own (scaled) parametrisation, from the first at the start of v to the last at its end: for any number of curves, of different degrees, knots and domains, clamped or not, rational or not, also when they share a point. Points that all coincide give an error.",
  ['inputs'], "all point lists, spacings, degrees and knot styles; all lists of curves to loft", "one doctest each, with evenly behaved points; loft is tested with two curves",
  ['src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs'],
  [('knot averaging, collocation matrix and linear solve', 'src/curve/nurbs_curve.rs try_interpolate, try_periodic_interpolate'), ('loft unifies the sections and interpolates their control points', 'src/surface/nurbs_surface.rs try_loft')],
  na=PENDING)
P('C33', 'Lengths and divisions follow the speed of the curve',
  "The length of a curve is its speed summed over its whole domain, every part once. The parameter at a length is where the curve, from its start, has that length within the tolerance, inside of the domain, from zero to the whole length. Dividing a curve by a length gives its start and every multiple of that length up to the end, in order, and dividing it by a count gives that many equal parts from its start to its end, each position with its parameter, within one percent of the length of a part: for every domain, degree, knot multiplicity and however uneven the speed, also for curves much shorter than one.",
  ['inputs'], "all curves, domains, lengths and counts", "doctests on a circle and a line of even speed and ordinary size", ['src/curve/nurbs_curve.rs'],
  [('quadrature per Bezier piece, bisection for the parameter', 'compute_bezier_segment_length, compute_bezier_segment_parameter_at_length'), ('division', 'try_divide_by_length, try_divide_by_count')],
  na=PENDING)
P('C28', 'Knot vectors answer queries by the order of their knots',
  "The position of a value in a knot vector is that of the last knot not above it; adding a knot keeps the knots in ascending order and reports where the new one is; multiplicities list every distinct knot once, in order, with how often it occurs; a vector is clamped for a degree exactly if its first and its last knot both occur more than degree times. The span of a parameter is the non-empty one that contains it, the last one at the end of the domain, also at knots of any multiplicity, by binary and by linear search. The domain lies between the knots at the degree from either end, clamping moves a parameter to the nearest one inside, uniform vectors are clamped with even steps, reversing mirrors the knots between their ends. The basis functions of evenly spaced parameters are those of the definition, derivatives included, each with its span.",
  ['inputs'], "all ascending knot vectors, clamped or not, of any multiplicities, and all parameters", "doctests with one clamped vector",
  ['src/knot/knot_vector.rs', 'src/knot/knot_multiplicity.rs'],
  [('queries on the sorted knots', 'src/knot/knot_vector.rs floor, add, multiplicity, is_clamped, find_knot_span_index'), ('even subdivision', 'regulary_spaced_basis_functions')],
  na=PENDING)
P('C29', 'Crossings are told from touches and tangencies',
  "At an intersection of two outlines, curves that cross at a clear angle are classified as a plain crossing, which a boolean walk turns at; curves that run along each other there, and curves that only pass by each other, are not: wherever in their domains it lies, however fast the curves are traversed, in whichever direction each runs and whichever is given first. The nearest points of two lines in space are on their lines at the reported parameters, with the shortest distance between them; parallel lines have none.",
  ['inputs'], "all pairs of curves around an intersection, all pairs of lines", "counts of crossings for a few pairs of outlines",
  ['src/boolean/degeneracies.rs', 'src/misc/ray.rs'],
  [('short chords around the intersection', 'src/boolean/degeneracies.rs Degeneracy::new'), ('nearest points', 'src/misc/ray.rs find_intersection')],
  na=PENDING)
P('C34', 'All intersections and the globally closest point are found',
  "Intersection search finds every transversal intersection and closest-point search finds the global minimum.",
  ['inputs'], "all pairs", "few sampled pairs", ['src/intersects/', 'src/closest_parameter/'],
  [('subdivision then BFGS/Newton', 'src/intersects')],
  na="Completeness of a numerical local search; not decidable from structure (and not guaranteed by the algorithm).")
P('C35', 'Tessellations approximate within tolerance without cracks',
  "The polyline or mesh deviates from the exact geometry by at most the tolerance, and adjacent cells leave no cracks.",
  ['inputs', 'configurations'], "all surfaces and options", "none", ['src/tessellation/'],
  [('should_divide', 'src/tessellation/adaptive_tessellation_node.rs')],
  na="Geometric error bound over runtime reals; only the structural clauses (arrays in step, neighbour links) are claimed, under C12 and C20.")
P('C36', 'Crossing booleans are set-theoretically exact',
  "For crossing outlines, the area of union, intersection and difference are those of the point sets.",
  ['inputs'], "all crossing pairs", "three configurations", ['src/boolean/'],
  [('Greiner-Hormann', 'src/boolean/clip.rs')],
  na="Depends on the numerical intersections found and on degeneracy classification by angle; the decision structure is claimed under C06 and C07.")

# property -> (technique, level note) of the claimed ones
CLAIMS = {
 'C28': ('abstract interpretation of the MIR with symbolic knots and parameter, one assignment for every order they can have in eleven vectors (every knot, every gap, below and above): answers are indices or lists of the symbols, compared with the definition; computing functions compared at the assignment',
         'eleven knot vectors of degree 1 to 4, clamped and not, with repeated knots; up to eight even parts; knots closer than rounding are not considered'),
 'C29': ('decision table by abstract interpretation of the MIR: the points of both curves around the intersection are those of straight pieces (angle, direction, speed, distance per case), the orientation predicate is exact; nearest points of lines as terms in symbolic rays (identity testing)',
         'ten angles, three directions, three pairs of speeds, two pairs of parameters; eight pairs of lines; angles between 1 and 10 degrees are not decided'),
 'C27': ('abstract interpretation of the MIR with evaluation and random probes replaced by a table (curves as functions of the parameter, probes at both ends and inside of their range); the resulting list of vertices is mapped back to parameters',
         'six curves over four domains down to a width of 4e-9, two and three dimensions, two tolerances, three probes; compound curves of one to three spans; seven trimming curves on a flat and a bent surface; how near the polyline stays is only bounded loosely (C35)'),
 'C25': ('abstract interpretation of the MIR with symbolic control points: frames are terms, compared at assignments with the frame they have to be (identity testing); rotations of nalgebra by their definitions; sweeps with each frame replaced by one symbolic placement, the surface searched for the placed profiles',
         'rails of degree 1 to 3, straight in five directions and curved; profiles of four kinds; one or two assignments for each rail and direction; linear systems solved exactly'),
 'C26': ('abstract interpretation of the MIR of the searches with symbolic control points and targets along the path an assignment takes, the solver framework replaced by one that ends anywhere; the steps interpreted with slope and curvature as terms and compared with those of the squared distance (identity testing)',
         'four curves, two surfaces, targets on, near, beyond and far away; five ends of the solver; where argmin ends and how fast it converges is not decided'),
 'C33': ('abstract interpretation of the MIR with the speed of the curve replaced by a known function of the parameter, so every length is known, and quadrature by an exact one that asks the code its own integrand; positions, order and number of the results are compared with those lengths',
         'six knot configurations, three speeds, lengths from 1e-7 to 200; how closely Gauss-Legendre nodes approximate the speed of a curve is not decided'),
 'C32': ('exact abstract interpretation of the MIR with symbolic points: chord lengths are those of an assignment, so knots and the matrix handed to the linear solver are constants; the solver is replaced by exact elimination, and the linear forms of the result are searched for the parameters where they reduce to the given point or curve',
         'degrees 1 to 4, up to 7 points in generic, uneven and closing positions, all knot styles; 14 combinations of 2 to 5 sections; exact solution of the linear system (rounding and conditioning are not considered); closed interpolation of even degree through an even number of points is impossible at the knots and may fail'),
 'C24': ("abstract interpretation of the compiled MIR of the region booleans with the booleans, containment and end points of single outlines replaced by exact set algebra on the cells of a grid; the regions returned are compared with the set operation cell by cell",
         "regions of no to two holes and second operands of no to two holes at 34 relative positions (nested, apart, crossing exteriors and holes, enclosing a bay), all three operations and operand kinds; the booleans of single outlines are taken to be exact (structure decided under C06 and C07), degenerate contacts are left out"),
 'C22': ("exact abstract interpretation of the compiled MIR of the constructor over lists of explicit spans (straight, rational, unclamped): every order and direction of chains of up to three spans and a Latin selection for four; decision tables for the queries with the spans' own answers replaced by values",
         "chains of one to four spans at explicit places, without branching; joints that coincide; the spans' own length and closest point are decided elsewhere (or not at all)"),
 'C10': ('exact abstract interpretation of the compiled MIR of every surface operation on families of surfaces with different degrees, knots and domains in u and v: parameters, knots and degrees are constants, control points symbols; results are linear forms compared with the definition per direction, decision tables for the box tree, the solver step, the solver start and the tessellation grid',
         "the listed pairs of degree/knot configurations (degrees 1 to 4, differing domains) for all control points; the solver step at eight local shapes; the solvers' convergence is not decided"),
 'C19': ('abstract interpretation of the compiled MIR with symbolic weighted coordinates and symbolic weights; results are terms, decided by identity testing along the paths that random assignments take, against coordinate/weight and coordinate*weight',
         'curves of four degree/knot configurations in two and three dimensions, surfaces of three; closest-point and intersection searches are replaced by a fixed linear map; transformation, inversion and casting of weighted points are decided under C09, arcs under C23'),
 'C23': ("abstract interpretation of the constructors' compiled MIR with symbolic centres, axes, radii, points and profiles: the control points of the result are terms; membership in the shape is then decided by identity testing (the terms are valued at random assignments), at more parameters per span than the degree, which fixes the rational pieces",
         'angles from a finite list covering every number of pieces; profiles of the listed degree/knot configurations with fixed weights; two to five polyline points; each path of the constructor only as far as a random or on-axis assignment takes it; real arithmetic within 1e-6; angles over a full turn and negative angles of revolution are not covered'),
 'C31': ('exact abstract interpretation of the compiled MIR: knots, degrees and weights are constants, control points symbols; the resulting control points are linear forms and the resulting spline is compared with the Cox-de Boor definition of the original at more parameters per span than the degree',
         'the listed degree/knot configurations (degrees 1 to 4, clamped and unclamped, repeated knots) for all control points; real arithmetic; general position when deciding whether a knot is removable'),
 'C30': ("exact abstract interpretation of the evaluation code's MIR with symbolic control point coordinates and constant knots, weights and parameters: every result is a linear (normals: bilinear) form in the coordinates, compared coefficient by coefficient with an independent exact Cox-de Boor and quotient-rule reference; more parameters per span than the degree, which fixes the polynomials",
         'nine knot vectors of degree 1-4 (multiplicities, unclamped, shifted domains), five degree pairs for surfaces, derivatives up to order 3 (curves) and 2 (surfaces); rounding only up to a relative tolerance of 1e-8 per coefficient; Frenet frames are not covered'),
 'C09': ("exact abstract interpretation of each operation's MIR on objects of several sizes whose control points, weights and vertices are distinct symbols; the resulting object is compared component by component, as rational functions, with what the operation means",
         "every size listed (up to 4 spans, 3 interiors, 3 x 5 nets; the code treats components uniformly in loops); nalgebra's matrix product and number casts are taken as given"),
 'C14': ('decision tables: solver runs are interpreted from MIR with the solver framework replaced by terms and the maximum read off the configured state, for several caller maxima; line search, containment search, cell division, recursive subdivision, bounding trees and the length bisection are interpreted exactly against adversarial answers (costs that never fall, errors, rays that never hit, curves that are never flat, lengths that jump)',
         'the argmin executor itself is trusted to stop at the maximum it is given; parameter ranges, depths and maxima from finite grids; adaptive tessellation in f64'),
 'C08': ('value flow over MIR with pairwise distinct option values: what each search hands to trees, solver and executor; decision tables for solver stops, containment rays, cell division and grid sizes; interpretation of every operation that takes options, comparing the options it passes on',
         'four sets of option values; loops over spans, regions and interiors are unrolled up to three rounds; grids up to 4x6 control points and degree 3; defaults themselves are compared only for curve intersections'),
 'C13': ('decision tables: the MIR of each constructor and operation is interpreted exactly on a grid of degrees, counts, knot vectors and positions with symbolic control points; every outcome must be the error for impossible data (object unchanged through &mut self) and a consistent object for possible data',
         'degrees 0-4, 0-6 points, knot counts within 2 of the right one, three knot orders; arcs at 16 angle pairs, knots inside, at and outside the ends; NaN is not considered; whether a linear solver succeeds counts neither way; refining with knots outside the range is not covered'),
 'C11': ('Decision tables by abstract interpretation of find_intersections over the candidates the solver may return (parameters below, at, inside and above the domain of each operand, gaps on either side of the minimum distance, several candidates together or apart, solver failures); value flow of the cost and the gradient against the derivative of the squared distance; of the accessors, swap and the compound variants',
         'up to three candidates per search, three spans per compound curve; domains disjoint and nested either way; the minimisation itself and the default options are not decided'),
 'C21': ('abstract interpretation of containment and ray crossing over resolved MIR, once per case of a decision table (geometric queries replaced by the case), signs of polynomials for the comparisons',
         'closed/open x box x boundary distance x crossing counts up to 5 and up to 3 spans; one and two ray pieces with all levels and sides of their ends; pieces bulging past the point with both ends left of it are not decided; closest point search and evaluation taken at their word'),
 'C01': ('value-flow analysis of the Serialize impls and Deserialize visitors on the resolved MIR (written key of each component vs key it is read from)',
         'all serializable types, every path of serialize and of the visitors; serde and the element types are trusted'),
 'C02': ('forward may-dirty dataflow on the resolved MIR, context-sensitive over local callees (custom rustc driver)',
         'every error exit of every exported &mut fallible operation, on all paths; panics are not error exits'),
 'C03': ('error-discipline dataflow over every Result value of the resolved MIR (custom rustc driver)',
         'every consumption of every Result; the best-effort idioms allowed are listed in the checker with their reasons'),
 'C04': ('effect analysis over the call graph of the resolved MIR (custom rustc driver)',
         'reachability of effectful callees from every exported function; external crates trusted to be deterministic'),
 'C06': ('abstract interpretation of the boolean entry points over resolved MIR, with the crossing list empty and each containment answer fixed; outcome table compared with set algebra',
         'all operand kinds without holes, all operations, all four containment combinations and failing queries; contains and first_point are taken at their word'),
 'C07': ('abstract interpretation of the clipping over symbolic crossings (exact heap, no solver), compared with an independent entry/exit walk',
         'lists of 2 and 4 non-degenerate crossings in every/several orders, all operations, containments and operand kinds; longer lists only by the same code'),
 'C15': ('value-flow extraction of the Newton update and wrap/clamp formulas from resolved MIR, decided by order reasoning and rational normal forms over the table below/inside/above x closed/open',
         'every path of the parameter update of all closest-parameter searches; real arithmetic, not floating point; the search is not claimed to converge'),
 'C12': ('value-flow extraction of the mesh lists from resolved MIR; combinatorial cover check of the faces of a leaf cell; decision table for the kept triangles',
         'leaf cells with up to three extra vertices per edge, all mesh sums and region cases; the evaluated coordinates themselves are taken at their word'),
 'C16': ('value-flow extraction of the box formulas from resolved MIR, decided for every coordinate order type by polynomial signs; abstract interpretation of the paired subdivision and of the tree division',
         'boxes in two and three coordinates, point sets up to four points, all order types including ties; real arithmetic, not floating point; paired subdivision over every mix of divisible and indivisible trees'),
 'C17': ('abstract interpretation of the containment and segment tests over resolved MIR, once per combination of vertex levels (sign domain) and turn directions, compared with the winding rule',
         'every realisable combination for polygons of up to 4 vertices and doubled triangles, every realisable segment pair; robust::orient2d trusted to be exact'),
 'C18': ('abstract interpretation of split and trim over resolved MIR on curves with symbolic control points, one knot vector per order type, pieces compared with the runs of the refined curve',
         'degrees 1 to 3, clamped and unclamped knots, parameters outside, at ends, inside spans and at knots of every multiplicity; compound curves of 1 to 3 spans with every pair of half-span parameters; the refinement itself is taken at its word'),
 'C20': ('abstract interpretation of grid construction, division and edge lists over resolved MIR, compared with the geometry of the cells',
         'grids of 1 to 4 spans per direction and degrees 1 to 3, every combination of constrained sides of size 1, 2 and 4, one division step in every mode; deeper division only by the same step'),
 'C05': ('ownership walk over field types, unsafe-code query (custom rustc driver) and compiler-decided auto-trait witnesses',
         'all exported types; witnesses at f32 and f64'),
}
