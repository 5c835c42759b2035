# the property table: see gen.py
NA = []

ALLSHAPES = 'every shape kind (rectangle, rounded rectangle, ellipse, open/closed curve, group, shape with holes)'

prop('C01', 'Derived and query operations change nothing a client can observe',
     'Every operation that returns a value - arithmetic, boxes, copies, paths, drawing, dumping, comparing, looking up, '
     'splitting, computing - leaves its receiver, its arguments and the package\'s shared state exactly as they were. '
     'Building a shape does not change what it is built from (only a shape with holes hands its pen and brush to its parts), '
     'and default arguments are never modified. Operations documented as in-place change their receiver alone, never an operand.',
     ['inputs', 'programs'],
     'all values of the receiver and arguments, ' + ALLSHAPES + ', every point/vector/transform operation, also when the operation raises',
     'tests compare results of a few calls; a stray write to an operand, a default argument or a module table shows only in later '
     'calls on particular values, which no finite sample of calls separates',
     [G, T, M, B, D, C],
     [('Point/Vector/BBox operators build new objects', G), ('Transform in-place ops return self, others copy', T),
      ('Elem.paths/control_paths/bbox/draw push and pop on the drawing context', M), ('bez_* build new control points', B)],
     'Frame rules: every observable of the reachable heap before and after has the same normal form; writes are located by last-write tracking.')

prop('C02', 'Copies and derived shapes are independent of what they came from',
     'After a copy, a transformed copy, a fixed or rounded point, or a shape converted to curves is made, changing the new object '
     'in place (its matrix, points, control points, name, members list, holes) never shows in the original, and changing the '
     'original never shows in the new object. Transforms, boxes, vectors, control points and vector fields copy the same way.',
     ['histories', 'inputs'],
     'every kind of shape/point/vector/transform, every way of deriving one from another, every later in-place mutation of either side',
     'aliasing shows only when a derived object is mutated after the fact; tests build an object, compare it once and drop it',
     [M, G, T, B, V],
     [('Elem.copy / Elem.transform / as_curves', M), ('Transform.copy / set_matrix', T), ('Point.copy / fixed', G), ('VectorField.copy', V)],
     'Aliasing decided on the abstract heap: reachable mutable objects of both sides are disjoint, and a havocked side leaves the other side\'s normal form alone.')

prop('C03', 'restore() brings back everything that was saved and shares nothing',
     'Saving a shape, point, vector, transform or control point with copy(), changing it arbitrarily through its public state and '
     'then restoring from the save makes it equal to the saved state in every attribute: geometry, transform, pen and brush, name, '
     'open/closed, hidden, members, holes. The saved object is not changed by being restored from and can be used again, and '
     'afterwards neither object sees changes to the other.',
     ['histories', 'inputs'],
     'every shape kind and value type; every change in between; repeated restores from one save',
     'tests restore once, from one specific change, and compare with ==; an attribute forgotten or aliased by restore() needs that '
     'attribute to have been changed, or a second use of the save',
     [M, G, T, B],
     [('Elem*.restore', M), ('Point.restore / Vector.restore', G), ('Transform.set_matrix', T), ('ControlPoint.restore', B)],
     'All state havocked between save and restore; observables compared as normal forms; disjointness of the two heaps.')

prop('C04', 'Equality covers every constructed attribute, is symmetric and never raises',
     'Two values of the same class built with the same arguments are equal; if any one constructor argument differs they are not '
     '(points, vectors, lines, matrices, transforms, boxes, control points, pens, brushes and every shape). Comparing is symmetric, '
     'reflexive, tells classes apart, and never raises whatever the other operand is. Equality of a transform depends on its current '
     'map only, not on its stack or on earlier inverse queries.',
     ['inputs'],
     'all attribute values, each attribute varied alone, every pair of classes, foreign operands (None, numbers, strings, tuples, lookalikes)',
     'tests compare a few equal pairs and one unequal one; an attribute left out of a comparison or an exception on a foreign type needs the one operand pair that shows it',
     [G, T, M, B, C],
     [('__eq__ of Point, Vector, Line, BBox', G), ('Matrix/Transform.__eq__', T), ('Elem*.__eq__', M), ('ControlPoint.__eq__', B), ('Pen/Brush/PenBrush', C)],
     'Result of == compared with the required truth value as a boolean normal form over all attribute values.')

prop('C05', 'Points and vectors form an affine space, whatever their kind',
     'Point plus/minus vector, point minus point, vector sums, differences, negation, scaling, dot and cross products, lengths, '
     'angles, normals, rotation, units, midpoints and rounding have their textbook coordinates, for plain, named, relative and '
     'computed points and for plain and point-to-point vectors alike. The affine laws follow: p+(q-p)=q, (q-p)+(r-q)=r-p, '
     'associativity, distributivity, perpendicular normals of equal length. Meaningless combinations (point+point, vector-number) '
     'are refused with TypeError instead of producing a value.',
     ['inputs'],
     'all real coordinates; every combination of point kinds and vector kinds',
     'tests evaluate a handful of coordinates, mostly for plain points; identities over all reals and all kind combinations are beyond samples',
     [G], [('Point, PointRelative, PointCalc operators', G), ('Vector, VectorRelative operators', G), ('polygon_area', 'x7/geom/geom.py')],
     'Results compared as polynomial/algebraic normal forms in the symbolic coordinates.')

prop('C06', 'Computed points and vectors follow their bases; fixed ones never do',
     'A relative or computed point, and a vector between two points, always reports coordinates derived from where its bases are '
     'now, through any chain and after any number of moves. Results of arithmetic, copy-by-value, rounding, fixed() and shapes '
     'that fix their corners are snapshots: moving a base later does not move them. Moving a relative point changes its offset, '
     'never its base.',
     ['histories', 'inputs'],
     'all coordinates and offsets, chains of computed points, every derived operation, arbitrary later moves of any base',
     'needs an object observed, its base moved and the object observed again; tests read each once',
     [G, M, B], [('PointRelative.x/y, PointCalc.x/y, VectorRelative.x/y', G), ('BasePoint.fixed', G), ('ElemCurve.fixed', M)],
     'Coordinates re-read after havocking the base, compared as normal forms in the new base coordinates.')

prop('C07', 'Boxes are normalised and cover what they were made from',
     'Every box a client can obtain - built from coordinates or points in any order, grown, united, expanded, rounded, transformed, '
     'of a control point or curve segment - has its low corner at or below its high corner in both axes, unless it is the empty box. '
     'It covers every point, box and control point it was made from and is the smallest that does where the operation promises it; '
     'width, height, centre and corners agree with the coordinates. Coordinates of zero are ordinary coordinates.',
     ['inputs', 'histories'],
     'all real coordinates in any order, zero included, empty boxes, any transform',
     'tests use a few positive coordinates; ordering, zero and empty-box cases are value dependent',
     [G, T, B], [('BBox.__init__/grow/expand/transformed/__add__', G), ('ControlPoint.bbox', B)],
     'Order obligations decided by polyhedra emptiness and min/max normal forms.')

prop('C08', 'Boxes obey the algebra of sets',
     'Union of boxes is commutative, associative, idempotent and has the empty box as unit; intersection is commutative, idempotent, '
     'the largest box inside both operands, and no box at all exactly when the operands share no point. Contains, overlaps, touches '
     'and point membership agree with each other and with the coordinates, for every kind of point. Shifting boxes shifts their '
     'unions and intersections.',
     ['inputs'], 'all pairs and triples of boxes, empty boxes included, and all points',
     'set laws quantify over pairs and triples of boxes; tests sample a few',
     [G], [('BBox.__add__, __and__/intersection, contains, contains_pt, overlaps, touches', G)],
     'Predicates reduced to formulas over the corners, equivalences by polyhedra emptiness.')

prop('C09', 'Each transform operation is the affine map it names, on the documented side',
     'Translate, scale, rotate (both directions), rotate about a point, fit box to box (with and without keeping aspect), compose '
     'and compose-outer, canvas fit, reset, set-matrix and simplify change the current map to exactly the named affine map applied '
     'on the documented side, and return the transform itself so calls chain. Applying the six published numbers by hand gives the '
     'same point as the transform, singly and in batches. Composing two transforms is applying one after the other, and affine '
     'combinations of points are preserved.',
     ['inputs', 'histories'], 'all matrices, all arguments (angles, factors, offsets, boxes), any sequence of operations',
     'tests check a few operations from the identity, where the side of composition and most entries cannot be told apart',
     [T], [('Transform operations', T), ('Matrix.pre_dot_eq/post_dot_eq', T)],
     'Matrix entries compared as polynomial normal forms with sin/cos as algebraic atoms.')

prop('C10', 'Undoing a transform always matches its current map',
     'After every sequence of transform operations, stack pushes and pops, copies and inverse queries, mapping a point forward and '
     'back gives the point again, singly and in batches. Asking for the inverse never changes the map, and no two transforms ever '
     'share state so that changing one changes or stales the inverse of the other.',
     ['histories', 'inputs'], 'all sequences of operations (each operation after each state of the inverse cache), all invertible matrices and points',
     'a stale cache needs query, change by one particular operation, query again; tests query once',
     [T, M], [('Transform.inverse cache and its invalidation in every mutator', T), ('Transform.push/pop/copy/set_matrix', T)],
     'Typestate of the cache covered by running every operation after a query on a general matrix; untransform(transform(p)) normal form equals p.')

prop('C11', 'Every pushed matrix is popped again on every exit',
     'Drawing, computing paths, control paths or boxes, transforming or walking any shape leaves the caller\'s current matrix and '
     'its stack exactly as they were: on normal return, when a member shape or client object raises at any point, and when a walk '
     'is abandoned or has an exception thrown through it. Push and pop restore exactly and in last-in-first-out order, with-blocks '
     'pop on every exit, and popping or entering without a push is refused.',
     ['histories', 'fault_sequences', 'inputs'],
     'every shape kind and nesting, every operation, exceptions raised at each call the operation makes, early exit of each walk',
     'tests walk to the end and never fail inside; exits by exception or abandonment need a fault at a particular call',
     [M, T, D], [('Transform.push/pop/__enter__/__exit__', T), ('Elem.paths/control_paths/iter_elems*', M), ('DrawingContext', D)],
     'Stack depth and matrices compared as normal forms after every exit edge, including injected exceptional exits at each call.')

prop('C12', 'A point maps the same however it is handed to a transformer',
     'For every transformer (affine transforms, vector fields, client subclasses), mapping a point gives the same coordinates '
     'whether it is handed over as a point or as a pair, alone or in a list, as numpy points or flattened, with points or '
     'pairs asked back, and for untransform alike. Vectors map as differences of points, control points map by their centre and '
     'handle tips and keep their kind, and vector field values interpolate their grid and leave field and points unchanged.',
     ['inputs'],
     'all points, all matrices, all field grids, all batch sizes, every entry point of the Transformer protocol',
     'the entry points are separate code paths; tests compare each with constants at a few points and never with each other',
     [T, V, B], [('Transformer.transform_pt/transform_pts/transform_vec/... and untransform forms', T),
                 ('ControlPoint.transform', B), ('VectorField.transform_pt/transform_np_pts', V)],
     'Outputs of the entry points compared as normal forms over a general matrix, field and batch.')

prop('C13', 'Every view of a shape shows the same geometry, through its transform',
     'Paths, control paths, boxes, transformed copies, conversion to curves and deep walks of any shape describe one geometry: '
     'its own points mapped by its transform and then by the drawing matrix, members through the transforms around them. '
     'Transforming a shape and then looking at it is the same as looking at it through the transform; corners, rounded corners '
     'and ellipses lie where their two defining points say. Boxes of shapes enclose their control points\' hull.',
     ['inputs'],
     ALLSHAPES + ', nested to any combination, all transforms and drawing matrices, all corner orders',
     'each view is separate code per shape class; tests compare each with recorded constants, mostly without a transform',
     [M, D, B], [('Elem*.paths/control_paths/bbox/transform/as_curves', M), ('Group/ElemWithHoles.iter_elems', M),
                 ('make_rounded_rect_cps, make_ellipse_p1p2_cps', M), ('DrawingContext', D)],
     'Coordinates of every view compared as polynomial normal forms in the corners and matrix entries.')

prop('C14', 'Bezier evaluation is the cubic through its control points',
     'Evaluating a segment gives at every parameter the Bernstein combination of its four points, starts and ends at its ends '
     'with the handle directions as tangents, never leaves the hull of its control points, and commutes with every affine map. '
     'Paths of curves visit the segments in order, once each, join them without gaps or doubled points, and close exactly when '
     'the curve is closed; the number of steps changes only how finely.',
     ['inputs'],
     'all control points, all parameters, all step counts, open and closed curves of any concrete length, all matrices',
     'tests evaluate a few segments at a few parameters and compare constants',
     [B], [('bez, bez_path', B), ('control points of ElemCurve', M)],
     'Evaluated points are polynomial normal forms in parameter and control points; hull by Bernstein coefficients.')

prop('C15', 'Reshaping operations on curves keep the curve',
     'Splitting a segment, adding one control point, and reversing a curve give control points that trace exactly the same '
     'points in the same (or opposite) order; splitting at t cuts at t. Offsetting moves every control point and handle by the asked '
     'distance from the pieces it belongs to, limited as documented, to the same side whichever way the curve runs. Open curves gain no segment and closed ones lose none.',
     ['inputs'],
     'all control points, all split parameters, open and closed curves of any concrete length, single-point curves',
     'tests compare one split of one curve with constants; the identity holds or fails as a polynomial in all coordinates',
     [B, M], [('bez_split', B), ('ElemCurve.add_one, ElemCurve.offset_pt', M), ('ControlPoint.reversed', B)],
     'The two cubic parametrisations are compared coefficient by coefficient as polynomial normal forms.')

prop('C16', 'Arcs, circles and path helpers put points where they say',
     'Points of an arc or circle are at the radius from the centre, evenly spaced, first and last at the asked angles, in the '
     'asked direction whatever whole turns the angles carry; an arc through two points has its centre at the radius from both, on '
     'the asked side, and impossible ones are refused. Rotation, translation and conversion helpers agree with the transforms and '
     'each other, and the smallest rotation is smallest.',
     ['inputs'],
     'all radii, centres (of every point kind), angles including whole turns, point lists',
     'tests compare a few arcs with recorded constants; wrap-around and direction only show at particular angle pairs',
     [U], [('arc, arc2p, circle, plus, cross', U), ('min_rotation, path_rotate, path_rotate_ccw, path_translate', U)],
     'Distances and angles compared as normal forms with sin/cos atoms; modular arithmetic by exact evaluation of constants and integer shifts.')

prop('C17', 'What is printed reads back equal, and a dumped model loads as the same model',
     'The repr of a point of any kind, vector, box, line, transform, control point, pen or brush is an expression that evaluates '
     'to an equal value of the same class, exactly. Dumping any model - shapes of every kind with their transforms, pens, names, '
     'groups in groups, holes - gives a program that builds an equal model with members in the same order, and dumping changes '
     'nothing, so a second dump gives the same text.',
     ['inputs'],
     'all coordinates and names (quotes and newlines included), ' + ALLSHAPES + ', nested, hidden or not, members filed under their own names',
     'tests compare dumps with recorded text and never load them; a dropped attribute or digit needs the value that shows it',
     [G, T, B, C, M], [('__repr__ of Point*, Vector*, BBox, Line', G), ('Transform.__repr__', T), ('ControlPoint.__repr__', B),
                       ('Pen/Brush/PenBrush.__repr__', C), ('DumpContext, Elem.dump_elem, Elem*.dump', M)],
     'The printed text, with symbolic placeholders for numbers and words, is parsed and interpreted again; both objects compared as normal forms.')

prop('C18', 'An animation at time t shows what t says, whatever was shown before',
     'Updating an animation to a time puts its point, or its morphing shape, exactly where the time function says, independent of '
     'earlier updates, of moves by others and of the order of times; names and targets stay. Holders update every animation in '
     'order, morphs trace the source at 0 and the target at 1, keep their place in the model, hide and come back, and can be '
     'restored. Builders show each frame once and in order, and refused animations change nothing.',
     ['inputs', 'histories'],
     'all times and sequences of times, all start and end points, frequencies, offsets, curves of any concrete length, all places in a model',
     'tests update an animation a few times at increasing times; drift, stale state and order effects need particular histories',
     [A, AS], [('Animation*, AnimationHolder', A), ('Morph, MorphMultiStep, Builder', A), ('SimpleAnimation', AS)],
     'Positions after arbitrary update sequences compared as normal forms in the times; drawing and saving calls as recorded events.')

prop('C21', 'Names lead to the shapes they name, in groups built in any way',
     'Every member of a group is filed under its own name, unique and undotted, in the order added: a taken name never displaces a '
     'member but is replaced by the first free numbered one, a path by its last part if asked. Walks name every shape by its path, '
     'and looking that path up gives that very shape, parts of shapes with holes included; unknown paths are refused. Replacing '
     'puts the replacement in the same place everywhere the shape occurs, and builders give each shape the pens of its kind.',
     ['inputs', 'histories'],
     'all sequences of adding, renaming, replacing in groups nested to any depth, all member kinds, all builder calls',
     'tests look up a handful of names in two groups; collisions, nesting and order only show in particular combinations',
     [M], [('Group.add/lookup/replace/iter_elems/iter_elems_transformed', M), ('ElemWithHoles.lookup/iter_elems', M),
           ('GroupBuilder', M)],
     'Walks and lookups interpreted over layouts of every member kind; object identity decided on the abstract heap.')

prop('C22', 'An operation that refuses, or fails, changes nothing it was given',
     'When an operation raises - a taken or dotted name, a replacement that does not fit somewhere in the model, an unknown kind or '
     'path, a curve of another size, an empty box, a map without inverse, an unbalanced pop, a morph that '
     'cannot be made - its receiver, arguments and the package are as they were before. A map that cannot be inverted still says so '
     'the next time, and works as soon as it is repaired or popped.',
     ['inputs', 'fault_sequences'],
     'every refusal in the package with every member kind and nesting, singular maps, empty boxes and unbalanced pops in every history',
     'tests check that an exception is raised, hardly ever what is left behind',
     [M, T, G, B, C, A], [('Group.add/replace/add_pt', M), ('Transform in-place operations, inverse, pop', T),
                          ('ElemCurve.restore', M), ('Morph, MorphMultiStep', A)],
     'Observables of the reachable heap on every raising path compared with those before the call.')

prop('C23', 'Pens, brushes and tables of pens mean what they were given',
     'A pen or brush strokes and fills with exactly the colour and width given, in whatever form (pen, colour, tuple, pair), and '
     'is stroked or filled exactly when a pen or brush is there, transparent included. Positive widths are pixels whatever the map, '
     'negative ones follow it. Replacing changes what is named and nothing else, in a new object; tables keep each kind apart, '
     'default to a thin black line, refuse unknown kinds and follow the documented standard mapping.',
     ['inputs'],
     'all colours in every form, all widths, all maps, every combination of given and omitted parts',
     'tests build a few pens and compare text; a width of zero, a missing pen or a transparent fill must be told apart from "not given"',
     [C], [('Pen, Brush, PenBrush', C), ('PensByShape, ColorsByShape', C)],
     'Attributes compared as normal forms over all colours and widths.')

prop('C24', 'What is drawn is the visible shapes, in order, each in its own pen and place',
     'Drawing a model draws each visible member once, in order, at its place through every transform around it, filled with its '
     'brush and outlined with its pen only where it has one, the holes of a shape left out of its filling, hidden shapes not at '
     'all. Control points are drawn at the places of the points and handles. Paths taken for drawing are those drawn, closed '
     'when the shape is, and drawing changes neither model nor context.',
     ['inputs', 'programs'],
     'all shapes of every kind, nesting, visibility, pens, brushes, drawing matrices and numbers of points per curve',
     'tests draw a few shapes and compare calls; members out of order, doubled outlines and misplaced parts need particular models',
     [M, D, C], [('Elem.draw, paths, control_paths', M), ('Group.paths/draw, ElemWithHoles.paths', M), ('DrawingContext', D)],
     'Calls to the drawing library are recorded as events with symbolic arguments and compared with the specified ones.')

prop('C25', 'Whatever can be done with a shape, point or map can be done with every kind',
     'Every operation of the common interface - printing, comparing, copying, restoring, transforming, paths, drawing, dumping, '
     'walking, boxes, arithmetic - works on every kind of shape, point, vector and map, empty and nested ones included, and gives '
     'what it documents. Derived objects are as good as constructed ones and no operation spoils a later one. Interfaces cannot be '
     'instantiated, in-place operations on maps return the map, and modules offer the names they list.',
     ['inputs', 'programs'],
     'every pair of operation and kind, every pair of kinds for binary operations, all sequences of two operations',
     'there are hundreds of combinations, tests try a few dozen; an attribute missing on one path of one class raises only there',
     [M, G, T, V, B, C], [('Elem and its subclasses', M), ('Point*, Vector*, Line, BBox', G), ('Transformer, Transform', T), ('VectorField', V)],
     'Each combination interpreted on most general instances; any escaping exception or other type of result is reported.')

prop('C27', 'Lines and segments: ends, closest points and crossings lie where geometry says',
     'A line made from a point and a direction, or from two points of any kind, starts, ends, shifts and compares accordingly, and follows the point and direction it was made from. The '
     'closest point is the foot of the perpendicular, and the crossing of two lines lies on both, whichever is asked and whatever '
     'part of the line is given; parallel lines are recognised and refused. A crossing of segments is reported exactly when it lies '
     'within both, with how far along each it is.',
     ['inputs'],
     'all lines, directions and points; segments crossing, apart, or meeting at an end inside both boxes (ends on the edge of a box: not claimed)',
     'tests try three lines with integer coordinates; signs, normalisation and degenerate directions need particular values',
     [G], [('Line', G), ('Vector.normal/unit/dot/cross', G)],
     'Rational normal forms in the coordinates, with orderings decided over linear forms.')

prop('C28', 'Vector fields move points by their vectors; derived fields keep their promises',
     'At a node of its mesh a vector field moves a point by exactly the vector stored there, and everywhere linearly in the stored '
     'vectors, across and up apart; the mesh is evenly spaced over its whole box, and equality means same mesh and same vectors. '
     'Scaling scales each part, normalising divides by the longest length, smoothing spreads a vector to its neighbours only and keeps '
     'directions, whatever the scale; all give new fields over the same mesh, with nothing remembered from the old one.',
     ['inputs', 'histories'],
     'all boxes and stored vectors over meshes of 1 to 6 steps, all points inside and outside, derived fields looked up after their origin was',
     'tests look up a few values of one mesh; a part mixed up, a stale interpolation or a zero factor taken for "not given" needs particular fields',
     [V], [('Mesh', V), ('VectorField.lookup/transform_np_pts/copy/scaled/normalized/smoothed', V)],
     'Arrays of symbolic vectors; interpolation modelled as exact at nodes and linear in the values, results compared as normal forms.')

prop('C29', 'Crossings are reported as solved, and splitting at them keeps the outline',
     'Intersecting two curve segments reports exactly the crossings the curve solver finds for those two curves, in its order, '
     'each with its place on the first curve and both parameters; meeting end-to-start counts only when endpoints are asked for, '
     'and a solver that gives up means no crossings, not an error. Splitting a closed curve at its self-crossings returns no '
     'curves if there are none, and otherwise closed curves made of the parts of the outline between crossings, each part once '
     'and in its direction, with sharp corners at crossings and the given points unchanged; a shape does so through its transform.',
     ['inputs', 'programs'],
     'all control points (crossings found, none, at ends, solver failing); figure eights with any handles; loops, bows and stars with 1-5 crossings in any scale and place',
     'the parts of the outline follow from graph walking over the crossings; tests compare a few fixed curves to fixed answers',
     [B, M],
     [('bez_intersect / bez_intersect_new', B), ('bez_self_intersect', B), ('ElemCurve.self_intersect', M)],
     'The numeric solver is replaced by an exact stand-in; outlines are compared part by part as polynomial normal forms over symbolic positions and handles.')

prop('C30', 'Pictures are background, shadow and layer; frames are saved whole and in order',
     'The picture of a drawing context is its drawing layer over its shadow, if any, over its background, where the background is the '
     'given picture (converted if it has no transparency, never marked itself) and the layer starts fully transparent; it is cropped '
     'only when asked, to the pixels of the box. Every frame of an animation is such a picture of its own with nothing of other '
     'frames; cropping and shrinking frames treats all alike, in order, leaves the originals alone and keeps transparency all-or-nothing. '
     'Saving a simple animation writes every frame, in order, each for the time asked for.',
     ['programs', 'histories'],
     'pictures of every mode, with and without shadow, drawing, crop; animations of 1 to 6 frames; all crop boxes and bounding boxes',
     'the tests do not build pictures at all, and wrong layering or a lost frame shows only in pixels',
     [D, A, AS],
     [('DrawingContext.__init__/image/alloc_shadow', D), ('Builder.build_one/build_all/scaled/resize_for_gif/max_bbox', A),
      ('SimpleAnimation.next_step/finish_step/save_animation', AS)],
     'Pictures are stand-ins that record how they were made; the recorded construction is compared with the one required.')

TS = 'x7/geom/testing.py'
prop('C31', 'Saved test data loads back equal; test comparisons honour their tolerance',
     'The text the geometry extension saves for a shape, a list of shapes or a list of (name, shape, transform) loads back equal using '
     'only the names the extension offers, whatever the shape is made of (computed points and handles, transforms, groups, holes) and '
     'however deep it is nested; other data is left to the pickler. Almost-equal of points, vectors and control points accepts every '
     'difference inside the places or delta asked for and reports every one outside it, on either axis and in any handle; explaining a '
     'mismatch never fails and tells close from different, and matching passes exactly when the data matches, leaving plot settings as they were.',
     ['inputs', 'programs'],
     'shapes of every class with points and handles of every class, alone and in every structure, at several depths; all coordinates; seven tolerances, both directions',
     'tests save a rectangle and simple values and compare one pair with the default tolerance',
     [TS, M, G, B],
     [('PicklerExtensionGeom.do_pickle/methods', TS), ('ExtendedMatcherGeomXY/ExtendedMatcherControlPoint', TS), ('TestCaseGeomExtended', TS)],
     'The saved text is kept as a term with symbolic pieces, parsed and interpreted with the offered names only; comparisons are decided over symbolic coordinates.')


def not_applicable(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}, reason=reason))


not_applicable(
    'C32', 'The curve solver finds every crossing of two curves',
    'For any two curve segments the reported crossings are all the points common to both, up to rounding, however often, however '
    'nearly tangentially or however close to their ends they meet.',
    ['inputs'], 'all pairs of cubic segments', 'a few figures are tested; near-tangent and overlapping curves are not',
    [B], [('bez_intersect hands the curves to bezier.Curve.intersect', B)],
    'Depends on the convergence of the numeric solver of the external package `bezier` (compiled subdivision and Newton steps); no static '
    'argument within reach bounds it. What the package does with the solver\'s answers is C29.')

not_applicable(
    'C33', 'Encoded pictures look like the frames they were made from',
    'A saved animation, opened by a viewer, shows each frame with its colours and transparency, at the time and for the time asked for, '
    'and shadows are soft copies of what casts them.',
    ['inputs', 'configurations'], 'all pictures, palettes and viewers', 'the tests save one picture and look at its existence',
    [A, D], [('save_animation, make_palette, make_shadow', A)],
    'Colour quantisation, filters and file encoding are pixel computations inside PIL, matplotlib and platform tools; their result is no '
    'function of the source that a static analysis of this package can decide. Which pictures are combined, cropped and saved, in which '
    'order and with which arguments, is C30.')

not_applicable(
    'C34', 'Floating-point results are as accurate as the formulas allow',
    'For coordinates of any magnitude the results of transforms, boxes, crossings and curves differ from the exact ones by rounding only: '
    'no cancellation, overflow or loss of small offsets beside large coordinates.',
    ['inputs'], 'all magnitudes of coordinates and matrices', 'tests compare with tolerances at ordinary magnitudes',
    [G, T, B], [('numpy and float arithmetic', T)],
    'A bound on rounding errors needs ranges of the run-time values, which the API leaves open; the checks decide the formulas over exact '
    'reals only.')
