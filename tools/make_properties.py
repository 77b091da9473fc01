"""Writes /verif/properties.jsonl (the committed file is the product of this script)."""
import json
import os

O = 'src/skspatial/objects/'
rows = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        anchors['observe_at'] = observe
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    rows.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                 'why_tests_cant': why, 'anchors': anchors})


SAMPLES = 'The tests compare a handful of hand-picked inputs (mostly small integers in 2D and 3D) with literals; '

prop('C01', 'Projections return the nearest point and the orthogonal component',
     'Projecting a point onto a line, plane, circle or sphere returns the point of that object nearest to it, one point at a time or '
     'in a batch; projecting a vector onto a vector, line or plane returns its orthogonal projection; and projecting a line onto a '
     'plane returns the line made of the projections of its points. Each result agrees with exact arithmetic up to rounding error '
     'relative to the coordinates involved, whatever the dimension, the scale and the lengths of the direction and normal vectors. '
     'A ValueError is raised exactly when the projection is undefined (the centre of a circle or sphere, the zero vector, a line '
     'perpendicular to the plane).',
     ['inputs'], 'Every line and plane in 1 to 16 dimensions, every circle and sphere, and every point, set of points, vector or line of that dimension.',
     SAMPLES + 'nearestness over all inputs, dimensions and scales, and agreement of batch with single, is never compared with an independent computation.',
     [O + 'line.py', O + 'plane.py', O + '_base_sphere.py', O + 'vector.py'],
     [('Vector.project_vector', O + 'vector.py'), ('Line.project_point/project_points', O + 'line.py'),
      ('Plane.project_point/project_points/project_vector/project_line', O + 'plane.py'), ('_BaseSphere.project_point', O + '_base_sphere.py')],
     ['return value of each project_* call'])

prop('C02', 'Distances and sides agree with exact geometry',
     'Distances from a point to a point, line, plane, circle or sphere and between two lines (parallel, intersecting or skew), one at a '
     'time or in a batch, equal the least Euclidean distance between the two objects. Signed plane distances are positive on the side the '
     'normal points to, side queries return -1, 0 or 1 accordingly, and a sum of squares equals the sum of the squared distances. '
     'No result is negative where it is a distance, and none depends on the length of a direction or normal vector.',
     ['inputs'], 'Every pair of objects of equal dimension: points, lines and planes in 1 to 16 dimensions, line-to-line distances in 2D and 3D.',
     SAMPLES + 'they never check a distance against an independent exact computation over all positions, orientations and scales.',
     [O + 'point.py', O + 'line.py', O + 'plane.py', O + '_base_sphere.py', O + '_base_line_plane.py'],
     [('Line.distance_point/distance_points/distance_line/side_point', O + 'line.py'),
      ('Plane.distance_point(s)(_signed)/side_point', O + 'plane.py'), ('_BaseSphere.distance_point', O + '_base_sphere.py'),
      ('_BaseLinePlane.sum_squares', O + '_base_line_plane.py')],
     ['return value of each distance_*, side_point and sum_squares call'])

prop('C03', 'Intersections of lines, planes and segments are sound and complete',
     'Intersecting two lines, a plane and a line, two planes, or two line segments returns the one common point (for two planes, the '
     'common line) up to rounding error. A ValueError is raised exactly when there is no such unique intersection: the objects are '
     'parallel, the lines are skew, or the intersection lies outside a segment. Segments that touch at or with an endpoint intersect.',
     ['inputs'], 'Every pair of lines in 2D and 3D, plane and line in 2 to 6 dimensions, planes in 3D, and segments in 2D and 3D, away from the documented tolerance boundary.',
     SAMPLES + 'the raise-or-return decision and the accuracy of the result hold over all configurations, including touching ones and coordinates far from the origin.',
     [O + 'line.py', O + 'plane.py', O + 'line_segment.py'],
     [('Line.intersect_line', O + 'line.py'), ('Plane.intersect_line/intersect_plane', O + 'plane.py'),
      ('LineSegment.intersect_line_segment', O + 'line_segment.py')],
     ['return value or exception of each intersect_* call'])

prop('C04', 'Circle and sphere intersections are sound and complete',
     'Intersecting a circle or sphere with a line, or a circle with a circle, returns the two common points (equal if tangent) up to '
     'rounding error, and both lie on both objects. A ValueError is raised exactly when the objects have no common point or the circles '
     'are concentric.',
     ['inputs'], 'Every circle with every 2D line or circle and every sphere with every 3D line: crossing, exactly tangent, missing, containing, concentric.',
     SAMPLES + 'that both points lie on both objects, that none is missed, and the verdict close to tangency hold over all radii, positions and direction lengths.',
     [O + 'circle.py', O + 'sphere.py'],
     [('Circle.intersect_line/intersect_circle', O + 'circle.py'), ('Sphere.intersect_line', O + 'sphere.py')],
     ['return value or exception of each intersect_* call'])

prop('C05', 'Cylinder intersections and containment agree with exact geometry',
     'Intersecting a line with an infinite cylinder returns the two points where it meets the lateral surface; with a finite cylinder it '
     'returns the two ends of the chord inside the capped solid, whether they lie on the side, on a cap or on both. A ValueError is raised '
     'exactly when the line misses the cylinder (or runs along the axis of an infinite one). A point is reported within the cylinder '
     'exactly when it lies between the caps and no further than the radius from the axis, surface included.',
     ['inputs'], 'Every cylinder orientation, length and radius with every 3D line and point, including lines through the caps, along the axis and in a cap plane.',
     SAMPLES + 'mostly axis-aligned cylinders at the origin; the case split over side, base and top holds for every orientation.',
     [O + 'cylinder.py'],
     [('Cylinder.intersect_line', O + 'cylinder.py'), ('Cylinder.is_point_within', O + 'cylinder.py'), ('_solve_quadratic', 'src/skspatial/_functions.py')],
     ['return value or exception of each intersect_line and is_point_within call'])

prop('C06', 'Vector algebra agrees with exact arithmetic',
     'The vector between two points, the norm, unit vector, dot and cross product, cosine similarity, angle (plain, signed in 2D, signed '
     'about a direction in 3D) and scalar projection agree with exact arithmetic up to rounding error, in range and with the documented '
     'sign and orientation, and integer components never overflow. The vector in a different direction is non-zero and not parallel '
     'to the vector (opposite in 1D). A ValueError is raised exactly when the result is undefined (zero vectors, wrong dimensions, a '
     'direction that is not perpendicular).',
     ['inputs'], 'Every vector in 1 to 16 dimensions with integer or real components from 1e-9 to 1e9, including parallel, opposite, perpendicular, axis-aligned and zero vectors.',
     SAMPLES + 'signs, ranges and accuracy must hold for every pair of vectors, also nearly parallel ones and large integers.',
     [O + 'vector.py'],
     [('Vector.from_points/norm/unit/dot/cross', O + 'vector.py'), ('Vector.cosine_similarity/angle_between/angle_signed/angle_signed_3d', O + 'vector.py'),
      ('Vector.scalar_projection/different_direction', O + 'vector.py')],
     ['return value or exception of each call'])

prop('C07', 'Predicates decide the relation they name within the given tolerances',
     'Checks for zero, parallel, perpendicular, equal and close arrays, for close lines and planes, for coplanar lines, for the side of a vector, and for a '
     'point contained in a line, plane, circle, sphere or segment return True exactly when the named relation holds within the relative and '
     'absolute tolerances passed by the caller (or the documented defaults). Every tolerance passed is honoured, symmetric relations '
     'give the same answer with the operands swapped, and lines or planes of different types are never comparable (TypeError).',
     ['inputs'], 'Every pair of operands whose relation is decided away from the tolerance boundary, with default tolerances and with any rel_tol and abs_tol.',
     SAMPLES + 'few pass a tolerance; that each tolerance reaches each comparison, for all objects and scales, is not tested.',
     [O + 'vector.py', O + '_base_array.py', O + '_base_line_plane.py', O + '_base_sphere.py', O + 'line_segment.py', O + 'line.py', 'src/skspatial/_functions.py'],
     [('Vector.is_zero/is_parallel/is_perpendicular/side_vector', O + 'vector.py'), ('_BaseArray.is_close/is_equal', O + '_base_array.py'),
      ('contains_point', 'src/skspatial/_functions.py'), ('_BaseLinePlane.is_close', O + '_base_line_plane.py'), ('LineSegment.contains_point', O + 'line_segment.py')],
     ['return value of each predicate'])

prop('C08', 'Affine rank, concurrency, collinearity and coplanarity are exact',
     'The affine rank of a set of points equals the dimension of the smallest affine space containing them, and the points are reported '
     'concurrent, collinear or coplanar exactly when that rank is at most 0, 1 or 2. Duplicates, the order of the points and their distance from '
     'the origin do not matter, and a tolerance passed by the caller is honoured.',
     ['inputs'], 'Every set of 1 to 600 exactly representable points in 1 to 7 dimensions, of every rank, near and far from the origin.',
     SAMPLES + 'all near the origin with few points; rank decisions must be right for every configuration, offset and multiplicity.',
     [O + 'points.py'],
     [('Points.affine_rank/are_concurrent/are_collinear/are_coplanar', O + 'points.py')],
     ['return value of each call'])

prop('C09', 'Construction accepts exactly valid input and keeps it unchanged',
     'An object is created if and only if its definition is valid: arrays non-empty, finite and of the right number of dimensions, matching '
     'dimensions, non-zero direction, normal and axis vectors, positive radii, distinct segment endpoints, non-collinear triangle vertices, '
     '2D circles and 3D spheres and cylinders; anything else raises a ValueError. The object created reports exactly the values, '
     'dimension and radius it was given.',
     ['inputs'], 'Every array_like and radius passed to a constructor: valid ones, and each way of being invalid in each position and dimension.',
     SAMPLES + 'each invalid input is tested in one position and dimension; validity must be decided for all of them.',
     [O + '_base_array.py', O + '_base_line_plane.py', O + '_base_sphere.py', O + 'line_segment.py', O + 'circle.py', O + 'sphere.py', O + 'triangle.py', O + 'cylinder.py'],
     [('__new__ / __init__ of each class', O)],
     ['constructor result and public attributes'],
     [('dimension', 'number of coordinates of the object', O), ('point, vector, direction, normal, radius, point_a/b/c', 'defining values', O)])

prop('C10', 'No operation modifies its operands',
     'No public computation, constructor, plot or formatting operation changes the object it is called on or any array, list or object passed to it: '
     'bytes, shape, dtype, writability and attributes are the same afterwards, whether it returns or raises.',
     ['inputs', 'histories'], 'Every public operation of every object and function on every kind of operand (lists, arrays, views, library objects), normal and failing calls.',
     'Tests look at results only; an operation that writes to its input returns the right value once and corrupts later ones.',
     ['src/skspatial/objects', 'src/skspatial/measurement.py', 'src/skspatial/transformation.py', 'src/skspatial/plotting.py'],
     [('copies made by np.array, np.subtract, np.pad and arithmetic', O)],
     ['fingerprint of every operand before and after each call'])

prop('C11', 'Results have the documented type and arrays keep their protocol',
     'Every operation returns the documented type (Point, Vector, Points, Line, Plane, float, int, bool, str, tuple or plain array) with the '
     'right dimension. Arithmetic on a Point, Vector or Points that gives finite values of the same shape returns the same class with the right '
     'dimension; elements, iteration, reductions, comparisons and other NumPy calls give the values NumPy gives for plain arrays. '
     'A view, copy, deep copy or pickle of any object equals the original in class, values and dimension.',
     ['inputs'], 'Every public operation on every valid input, every arithmetic operation between arrays and scalars, and every copy or pickle round trip.',
     'Tests compare values with is_close or np.isclose, which accept any type; round trips are only tested nowhere or on one input.',
     [O + '_base_array.py', O],
     [('__array_wrap__, __array_finalize__, __setstate__', O + '_base_array.py'), ('return statements and casts', O)],
     ['type and dimension of each result'])

prop('C12', 'Results do not depend on how equal numbers are represented',
     'Passing the same numbers as lists, tuples, integers, floats, NumPy arrays of any memory layout and of 32- or 64-bit integers, read-only arrays, NumPy '
     'scalars (radii too) or library objects gives the same outcome: the same result up to rounding, or an error of the same type. '
     'Integer input up to 1e8 gives the result of the equal float input.',
     ['inputs'], 'Every public operation, and every combination of representations of its array arguments.',
     'Tests pass Python lists nearly everywhere; no test runs the same operation over representations.',
     [O, 'src/skspatial/typing.py'],
     [('np.array / np.asarray conversions', O + '_base_array.py'), ('overflow prevention', O + 'vector.py')],
     ['results of the same operation under different representations'])

prop('C13', 'Geometry does not depend on the coordinate frame',
     'Moving all inputs of a projection, distance, intersection, predicate, triangle, measurement or fit by an axis permutation or reflection, a power-of-two scale '
     'or a translation moves the result the same way: points and vectors move with the frame, lengths scale, angles, verdicts and '
     'errors stay the same (signed angles and sides flip under reflection).',
     ['inputs'], 'Every operation on well-conditioned input and every combination of axis permutation, reflection, power-of-two scaling and translation.',
     'Tests fix one frame per case; an error tied to an axis, a sign, an order of coordinates or a scale is invisible in it.',
     [O, 'src/skspatial/measurement.py'],
     [('coordinate-free formulas', O)],
     ['pairs of results of the same operation in two frames'])

prop('C14', 'Line and plane of best fit minimise the sum of squared distances',
     'The line or plane of best fit passes through the centroid of the points and no other line or plane has a smaller sum of squared '
     'distances to them; points that lie on a line or plane are fitted exactly. The error returned on request equals that minimal sum. '
     'A ValueError is raised exactly when the points do not determine a fit (concurrent, collinear, or not 3D for a plane), within the tolerance passed.',
     ['inputs'], 'Every set of 2 to 600 points: lines in 1 to 6 dimensions, planes in 3D, noisy and exact, near and far from the origin.',
     SAMPLES + 'optimality is a statement about all lines and planes, for every point set.',
     [O + 'line.py', O + 'plane.py'],
     [('Line.best_fit', O + 'line.py'), ('Plane.best_fit', O + 'plane.py')],
     ['fitted object, returned error, exception'])

prop('C15', 'Circle, sphere and cylinder fits recover and optimise',
     'The circle and sphere of best fit minimise the sum of squared differences between squared distance to the centre and squared radius, '
     'so points on a circle or sphere are recovered, also far from the origin. The cylinder of best fit recovers the cylinder that well-spread points '
     'of an elongated cylinder lie on; of points near a cylinder its axis is a minimum of the same sum of squares, its radius the quadratic mean of the distances, and its ends span the points. Points that are too few, of the wrong dimension or '
     'degenerate (collinear, coplanar) raise a ValueError.',
     ['inputs'], 'Every non-degenerate set of 3 to 600 points in 2D or 4 to 600 in 3D; for cylinders, points spread over cylinders at least four radii long.',
     SAMPLES + 'recovery and optimality hold for every arrangement, orientation and offset.',
     [O + 'circle.py', O + 'sphere.py', O + 'cylinder.py'],
     [('Circle.best_fit', O + 'circle.py'), ('Sphere.best_fit', O + 'sphere.py'), ('Cylinder.best_fit', O + 'cylinder.py')],
     ['fitted object, exception'])

prop('C16', 'Triangle quantities are right and consistent for every vertex and side',
     'The vertices, side lines and lengths, angles, altitudes, normal, area, perimeter, centroid and orthocentre of a triangle agree with exact geometry for '
     'every vertex and side: side a is opposite vertex A, angles sum to pi, each altitude joins its vertex to the nearest point of the opposite side, '
     'and all altitudes pass through the orthocentre. The classification and the right-angle test are right within the tolerances passed and do not '
     'depend on the order of the vertices. Unknown vertex and side names raise a ValueError.',
     ['inputs'], 'Every non-degenerate triangle in 2D and 3D, in every vertex order; except for the normal, area and orthocentre, also in higher dimensions.',
     SAMPLES + 'a few right triangles; the relations hold for every triangle, vertex and side.',
     [O + 'triangle.py'],
     [('Triangle methods', O + 'triangle.py')],
     ['return value of each call'])

prop('C17', 'Measures equal exact lengths, areas and volumes',
     'The area of a triangle, volume of a tetrahedron, signed area of a polygon, circumference and area of a circle, surface area and volume '
     'of a sphere, and length, lateral and total surface area and volume of a cylinder equal the exact values. The '
     'signed area is positive for counter-clockwise and negative for clockwise vertices, wherever the polygon lies and whichever vertex comes first. '
     'Invalid polygons (fewer than three points, not 2D) raise a ValueError.',
     ['inputs'], 'Every triangle and tetrahedron in up to three dimensions, every polygon of 3 to 2000 vertices, every radius and axis.',
     SAMPLES + 'formulas are checked for a few unit-sized inputs and rounded literals.',
     ['src/skspatial/measurement.py', O + 'circle.py', O + 'sphere.py', O + 'cylinder.py'],
     [('area_triangle, volume_tetrahedron, area_signed', 'src/skspatial/measurement.py'), ('area, circumference, volume, surface_area, lateral_surface_area, length', O)],
     ['return value of each call'])

prop('C18', 'Meshes lie on the surface and cover it',
     'Every mesh of a plane, sphere or cylinder has the requested shape and every mesh point lies on the surface. A plane mesh spans the '
     'requested limits around the point of the plane in every orientation, a sphere mesh runs from pole to pole and all the way round, and a '
     'cylinder mesh runs from base to top and all the way round. The points of an object are the points of its mesh.',
     ['inputs'], 'Every plane, sphere and cylinder in every orientation, every number of steps and every pair of limits.',
     SAMPLES + 'meshes of a few axis-aligned objects are compared with literals.',
     [O + 'plane.py', O + 'sphere.py', O + 'cylinder.py', O + '_mixins.py'],
     [('to_mesh', O), ('to_points', O + '_mixins.py')],
     ['returned coordinate matrices'])

prop('C19', 'Plots show exactly the geometry of the object',
     'Plotting an object, directly or through its plotter and the 2D and 3D plotting helpers, adds artists whose data equal the geometry of the object '
     '(points, segment ends at the requested parameters, arrows, circles, surfaces equal to the mesh) to the given axes, in order, and passes every style keyword to them. '
     'A plotter exists exactly for objects that can be drawn in their dimension; otherwise, and for 3D plots on 2D axes of points and lines, a ValueError is raised.',
     ['inputs'], 'Every object of dimension 2 or 3 (and others for the error), every parameter range and style keyword.',
     'Tests only check that plotting runs (image comparison is not part of the suite); drawn data are never compared with the object.',
     ['src/skspatial/plotting.py', O + '_base_spatial.py', O],
     [('plot_2d, plot_3d, plotter', O), ('plot_2d, plot_3d, _scatter, _connect', 'src/skspatial/plotting.py')],
     ['artists of the axes after each call'])

prop('C20', 'Coordinate transformations are exact changes of basis',
     'Transforming points returns, for every point and basis vector in order, the dot product of that basis vector with the vector from the origin '
     'to the point. With an orthonormal basis the original points are recovered from the coordinates, and the coordinates of points along a line are '
     'their signed distances from its point along its unit direction.',
     ['inputs'], 'Every set of points, origin and basis of 1 to 5 vectors in 1 to 5 dimensions, orthonormal or not; every line.',
     SAMPLES + 'a handful of axis-aligned bases.',
     ['src/skspatial/transformation.py', O + 'line.py'],
     [('transform_coordinates', 'src/skspatial/transformation.py'), ('Line.transform_points', O + 'line.py')],
     ['returned array'])

prop('C21', 'Operations on points and arrays keep every coordinate right',
     'The centroid is the mean of the points; centring moves it to the origin and keeps all differences; normalising makes the greatest norm one and '
     'keeps all ratios; unique keeps each distinct point exactly once in lexicographic order. Setting a larger dimension keeps all values and appends '
     'zeros (a smaller one raises a ValueError), rounding rounds each value to the requested decimals, and conversion to an array gives an independent copy.',
     ['inputs'], 'Every set of 1 to 2000 points in 1 to 16 dimensions with duplicates, negative zeros and offsets, and every vector.',
     SAMPLES + 'a few points each.',
     [O + 'points.py', O + '_base_array.py'],
     [('Points.centroid/mean_center/normalize_distance/unique', O + 'points.py'), ('set_dimension/round/to_array', O + '_base_array.py')],
     ['returned array'])

prop('C22', 'Objects built from points, vectors or coefficients contain them',
     'A line from points or from a slope and intercept, the point of a line at a parameter, a plane from points or vectors, a circle through three points and a cylinder between two points '
     'contain the points they were built from, with the documented direction, orientation and extent. The Cartesian coefficients of a plane vanish exactly on its points '
     'and are its normal. A ValueError is raised exactly when the inputs do not determine the object (equal or collinear points, parallel vectors, wrong dimension), within the tolerances passed.',
     ['inputs'], 'Every pair or triple of points or vectors, every slope, intercept and parameter; circles also far from the origin.',
     SAMPLES + 'incidence and orientation must hold for all inputs and scales.',
     [O + 'line.py', O + 'plane.py', O + 'circle.py', O + 'cylinder.py'],
     [('Line.from_points/from_slope/to_point', O + 'line.py'), ('Plane.from_points/from_vectors/cartesian', O + 'plane.py'),
      ('Circle.from_points', O + 'circle.py'), ('Cylinder.from_points', O + 'cylinder.py')],
     ['constructed object, exception'])

prop('C23', 'Results are finite and failures are clean documented errors',
     'On finite input of ordinary magnitude (1e-9 to 1e9) every operation either returns entirely finite values or raises a ValueError or TypeError with a message; '
     'it never returns NaN or infinity, never emits a floating-point warning, and never fails with an internal error (math domain, division by zero, recursion, index, '
     'attribute, linear algebra).',
     ['inputs'], 'Every public operation on every input, degenerate and nearly degenerate ones included: zero, tiny, repeated, parallel, tangent, concentric, collinear.',
     'Tests trigger each documented error once; NaN, warnings and internal errors appear on degenerate inputs no test lists.',
     [O, 'src/skspatial/measurement.py', 'src/skspatial/_functions.py'],
     [('validation before each division, square root and arc cosine', O)],
     ['result values, exceptions and warnings of each call'])

prop('C24', 'The text form of an object evaluates back to an equal object',
     'Evaluating the repr of a point, vector, set of points, line, segment, plane, circle, sphere, triangle or cylinder gives an object of the same class with the same values, '
     'to the digits NumPy prints, with arguments named as in the constructor.',
     ['inputs'], 'Every object of every class, dimension and scale, with integer and real values of the default types, up to the 1000 numbers NumPy prints in full.',
     'Doc examples show the repr of a few objects and do not evaluate it back.',
     [O],
     [('__repr__ of each class', O)],
     ['repr string'])

prop('C25', 'Results depend only on current values, not on history or threads',
     'The same operation on equal values gives bit-identical outcomes every time: repeated, interleaved with any other operations, on a fresh or much-used object, '
     'after earlier failures, after the caller wrote to arrays it got as results (unless they share memory with an operand), in several threads at once, or in another process. After the values of an object '
     'are changed through the elements of its points and vectors, or by assigning its points or radius, every operation uses the new values. No operation changes process-wide settings '
     '(random generators, NumPy error handling and print options, warning filters).',
     ['histories', 'schedules'], 'Every sequence of public operations on shared and fresh objects, and every interleaving of threads running them on shared objects.',
     'Each test makes one or two calls on fresh objects in one thread; stale caches and shared scratch state need a history to show.',
     [O, 'src/skspatial'],
     [('no module-level or per-object mutable state besides the defining attributes', 'src/skspatial')],
     ['logs of operation and outcome, replayed in another order, thread or process'])

prop('C26', 'Computing never needs matplotlib and plotting says when it is missing',
     'With matplotlib not installed, every module except plotting can be imported, alone and in any order, and every computation gives the same result as with it. '
     'Only operations that draw can fail then, with an ImportError that names matplotlib; importing the plotting module raises an ImportError that says how to install it. With matplotlib installed, '
     'importing the other modules or computing does not import it.',
     ['configurations'], 'Every public import and operation in interpreters with and without matplotlib.',
     'The tests run in an environment where matplotlib is installed and imported before them.',
     ['src/skspatial/plotting.py', O],
     [('local imports in plot methods', O), ('ImportError with installation hint', 'src/skspatial/plotting.py')],
     ['sys.modules, import attempts and outcomes in subprocesses'])

prop('C27', 'Every operation takes a bounded number of steps',
     'No operation recurses or loops beyond a bound fixed by the size of its input: the depth of nested Python calls is bounded by a constant (60) and the number of calls '
     'grows at most linearly with the number of points and coordinates, whatever the values, finite or not (iterative cylinder fitting included, within a fixed budget). The running time of an operation on many points '
     '(cylinder fitting excepted) grows like sorting them at most, never with the square of their number. Every operation therefore ends.',
     ['inputs'], 'Every public operation on inputs of 1 to 16000 points, up to 400 dimensions and all value classes, finite or not.',
     'A slow or deeply recursive call still returns the right value, so no test fails.',
     [O, 'src/skspatial/objects/_base_array.py'],
     [('__array_wrap__ does not construct recursively', O + '_base_array.py'), ('vectorised batch operations', O)],
     ['profiler call events per operation'])

prop('C28', 'Arguments work by position and by documented name, with documented defaults',
     'Every public callable takes its arguments by position in the documented order or by their documented names, in any order, with the same outcome. An argument left out has its documented default: '
     'giving the default explicitly (the limits, angles and steps of meshes, parameters of points and plots, decimals, and keywords passed on to other functions, such as the tolerances of math.isclose or '
     'numpy.linalg.matrix_rank) changes nothing.',
     ['inputs'], 'Every public callable, every way of writing a call, and every input, plots on recording axes included.',
     'Tests write each call in one way, and a changed default or a swapped pair of parameters shows only for inputs that depend on it.',
     [O, 'src/skspatial/measurement.py', 'src/skspatial/transformation.py'],
     [('signatures and documented parameters of public methods and functions', O)],
     ['outcomes of equivalent calls'])

prop('C29', 'Subclasses of the public classes behave like the classes',
     'With objects of user-defined subclasses (that add nothing) as receivers, as operands, or as both, every operation gives the same values, errors and texts as with the classes themselves, wherever the documentation does not '
     'ask for operands of the same type. Class methods called on a subclass return its instances, and so do arithmetic, copies, pickles, rounding and setting the dimension.',
     ['inputs'], 'Every public operation on receivers and operands of subclasses, alone and mixed with the classes of the library.',
     'No test defines a subclass.',
     [O],
     [('cls(...) in class methods, isinstance checks of operands', O), ('__array_wrap__, __array_finalize__', O + '_base_array.py')],
     ['class and values of results'])

prop('C30', 'Computed results are independent of their operands',
     'The points, vectors, arrays, meshes and fitted objects that an operation computes are new: overwriting the operands later does not change them, and overwriting them changes no operand, also when a result has the values of an operand '
     '(a projection of a point already on the line, a unit vector of norm one, rounding or setting the dimension without effect). The elements of a computed array are also independent of one another. Only objects defined by given points or vectors (constructors, from_points and from_vectors, the vertices, '
     'side lines and altitudes of a triangle, a projected line), views and shallow copies may share memory with them.',
     ['inputs', 'histories'], 'Every computing operation on every input, above all those whose result equals an operand.',
     'Tests look at a result once, immediately, and never write to operands or results.',
     [O, 'src/skspatial/transformation.py'],
     [('project_point(s), unit, set_dimension, round, unique, mean_center, to_array', O)],
     ['result and operand bytes after overwriting the other'])

prop('C31', 'An interrupted operation leaves everything as it was',
     'When an operation is interrupted at any point of its code (Ctrl+C or another asynchronous exception), the exception reaches the caller, every operand has the values and attributes it had, and no setting of the process has changed. '
     'Afterwards the same operation gives the same outcome as before, on the same operands and on fresh ones.',
     ['crash points'], 'Every line of the library that any public operation executes, on every input (the cleanup of with and finally blocks and __array_finalize__ excepted).',
     'No test interrupts a call; a temporary change of an object or setting that is undone at the end is invisible otherwise.',
     [O, 'src/skspatial'],
     [('operations keep intermediate values in local variables', O)],
     ['trace events of the library, snapshots, later outcomes'])

prop('C32', 'Results do not depend on settings of the interpreter or process',
     'Every operation gives bit-identical outcomes whether Python runs normally, without assertions and docstrings, with warnings as errors or in development mode; with any hash seed, random state, NumPy error handling and print options '
     '(texts excepted), decimal precision, locale, recursion limit, working directory and garbage collection. In particular errors for invalid input do not come from assertions.',
     ['configurations'], 'Every public operation in processes with usual and unusual settings.',
     'The tests run with one configuration of the interpreter, NumPy and the process.',
     [O, 'src/skspatial'],
     [('validation raises ValueError and TypeError explicitly', O)],
     ['outcomes in processes with different settings'])

prop('C33', 'Operations keep nothing in memory',
     'The memory a program uses does not grow with the number of operations it has made: after a call returns or raises and its operands and result are dropped, nothing of them remains in the library, its classes or the objects '
     'it was called on, except in caches of bounded size.',
     ['histories'], 'Every sequence of thousands of public calls with different operands, on fresh objects and on one object.',
     'Tests make a few calls per process and never look at memory.',
     [O, 'src/skspatial'],
     [('no module-level or per-object registries or unbounded caches', 'src/skspatial')],
     ['allocated memory blocks'])

prop('C34', 'The message of an error is true of the operands',
     'Whenever a documented error is raised, its message is true: the points it calls collinear are collinear within the tolerance, the array it calls empty is empty, the circles it calls separate are apart and not one inside the other, '
     'the dimensions it calls different differ, the lines it calls parallel are parallel. This holds exactly at limits and tolerances and in every dimension. '
     'Wrong values raise ValueError, and objects of a wrong class TypeError.',
     ['validation', 'errors'], 'Every call that raises a documented message, of operands of all scales, dimensions and representations.',
     'Each message is tested with one or a few operands, most far from the limit.',
     [O, 'src/skspatial/measurement.py'],
     [('explicit checks with one message each', O)],
     ['class and text of each exception, operands of the call'])

prop('C35', 'Copies and pickles behave exactly as their originals',
     'A copy made by copy.copy, copy.deepcopy, a method of the array or any pickle protocol, alone or within a container, before or after the object was used, and loaded in this process or another, has the class and public '
     'attributes of its original, and every operation gives the identical outcome with copies in place of the originals. Results can be copied and pickled too. Deep copies and pickles share no memory with the original.',
     ['histories', 'serialization'], 'Every operation on copies of its operands, made in every way Python offers.',
     'Round trips are not tested, and none of the operations is tested on a copied object.',
     [O, 'src/skspatial'],
     [('__setstate__ and __array_finalize__ restore the dimension; the other objects keep plain attributes', O)],
     ['outcomes on originals and on copies'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for r in rows:
        assert len(r['title']) <= 80, r['title']
        n = r['statement'].count('. ') + 1
        assert n <= 4, (r['id'], n)
        f.write(json.dumps(r) + '\n')
