"""C25: everything that can be done with a shape, point, vector or map can be done with every kind of it."""
from specs.prelude import *
# the rules of single operations, asked here for every kind they are offered for
from specs.c05 import (case_point_plus_vector, case_point_minus_point, case_coincident, case_round_is_round_of_fixed, case_chasles, case_vector_linear,
    case_rotate, case_unit, case_unit_zero, case_angle, case_close, case_control_point_close, case_accessors, case_round, case_illegal,
    case_polygon_area, case_polygon_area_ccw, case_vector_defaults, case_parse, case_family_points, case_family_vectors)
from specs.c06 import (case_relative, case_relative_chain, case_calc, case_calc_rebased, case_calc_base, case_difference, case_difference_readonly,
    case_fromxy, case_fixed, case_fixed_vector, case_results_are_snapshots, case_vector_results_are_snapshots, case_difference_snapshots,
    case_difference_round, case_line_follows, case_curve_follows, case_shape_does_not_follow, case_shape_corners_are_snapshots,
    case_control_point_handles, case_named_points, case_nothing_to_do)
from specs.c07 import (case_construct, case_none, case_zero_edges, case_usage, case_union, case_grow, case_grow_none, case_grow_order, case_sort,
    case_items, case_expand, case_expand_zero, case_transformed, case_measures, case_copy, case_control_point_box, case_segment_box)
from specs.c09 import (case_identity, case_six_numbers, case_op, case_compose, case_compose_chain, case_self_compose, case_rotate_dir,
    case_rotate_about_fixes_center, case_scale_bbox_maps, case_scale_bbox_aspect, case_scale_vals, case_canvas_fit, case_simplify,
    case_simplify_product, case_simplify_small, case_is_simple, case_matrix_helpers, case_matrix_ops, case_matrix_inverse, case_set_matrix,
    case_points_match_single, case_affine_preserves, case_whatever_came_before)
from specs.c12 import (case_single, case_list, case_point_kinds, case_mixed_list, case_whole_numbers, case_tuple_argument, case_independence,
    case_control_point, case_control_point_linear, case_control_point_bent, case_control_point_smooth, case_back, case_width, case_width_general,
    case_helpers, case_field_zero, case_field_adds, case_field_nodes, case_field_scaled, case_field_copy_maps_alike, case_field_repeat, case_mesh,
    case_field_smoothed)
from specs.c13 import (case_paths_move_with_matrix, case_control_paths_move_with_matrix, case_own_transform, case_group_paths, case_nested_group_paths,
    case_holes_paths, case_holes_filled, case_rectangle_outline, case_curve_outline, case_ellipse_outline, case_transform_curve,
    case_transform_corners, case_transform_rounded, case_transform_group, case_transform_holes, case_transform_twice, case_copies_look_alike,
    case_as_curves, case_as_curves_nested, case_as_curves_holes, case_as_curves_holes_group, case_holes_paths_group, case_walk, case_walk_names,
    case_walk_transformed, case_walk_holes, case_box_of_corners, case_box_covers_corners, case_box_of_curve, case_box_of_open_curve,
    case_square_corners, case_box_of_group, case_box_of_nested_group, case_box_of_holes, case_box_moves_with_shape, case_box_update,
    case_rotate_about_center, case_context_points, case_context_set_matrix, case_context_crop, case_deep_paths, case_wide_group)
from specs.c14 import (case_samples, case_default_steps, case_reversed, case_natural, case_straight, case_point, case_inputs_unchanged, case_path,
    case_path_loop, case_path_empty, case_path_default, case_path_nonlinear, case_hull, case_curve_in_box)
from specs.c16 import (case_circle, case_circle_default, case_arc_radius, case_arc_ccw, case_arc_cw, case_arc_none, case_arc_default_steps,
    case_arc_default_steps_none, case_arc2p, case_arc2p_half, case_arc2p_refused, case_marks, case_min_rotation, case_min_rotation_values,
    case_translate, case_helpers_give_new_points, case_convert, case_check_list)
from x7.geom.geom import BasePoint
from x7.geom.model import GroupBuilder, GeomInternalError, Elem, ElemP1P2
from x7.geom.transform import Matrix, Transformer
from x7.geom.vec_field import VectorField, Mesh
from x7.geom import geom, transform, model, bezier, colors

SHAPES = ('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve', 'OpenCurve', 'OneCurve', 'Group', 'EmptyGroup', 'Nested',
          'ElemWithHoles', 'HolesInGroup', 'HolesOfEllipse')


def shape(kind, k='e', x=True, name='n'):
    t = tf_scale(k + '.xf') if x else None
    pb = PenBrush(Pen('ink', real(k + '.width')), 'wash')
    if kind == 'ElemRectangle':
        return ElemRectangle(name, pb, pt(k + '.p1'), pt(k + '.p2'), xform=t)
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(name, pb, Point(1, 2), Point(11, 9), 2, xform=t)
    if kind == 'ElemEllipse':
        return ElemEllipse(name, pb, pt(k + '.p1'), pt(k + '.p2'), xform=t)
    if kind == 'ElemCurve':
        return ElemCurve(name, pb, [cp(k + '.0', 'smooth'), cp(k + '.1', 'sharp')], True, t)
    if kind == 'OpenCurve':
        return ElemCurve(name, PenBrush('ink'), [cp(k + '.0', 'smooth'), cp(k + '.1', 'sharp')], False, t)
    if kind == 'OneCurve':
        return ElemCurve(name, pb, [cp(k + '.0', 'very-smooth')], True, t)
    if kind == 'EmptyGroup':
        return Group(name, PenBrush('ink'), xform=t)
    if kind == 'Group':
        return Group(name, PenBrush('ink'), xform=t, elems={'a': shape('ElemRectangle', k + '.a', x), 'b': shape('ElemCurve', k + '.b', x)},
                     points={'q': pt(k + '.q'), 'p': point_of('PointRelative', k + '.r'), 'r': pt(k + '.q')})
    if kind == 'Nested':
        return Group(name, PenBrush('ink'), xform=t, elems=[shape('Group', k + '.g', False)])
    if kind == 'HolesInGroup':
        return Group(name, PenBrush('ink'), xform=t, elems=[shape('ElemWithHoles', k + '.h', False)])
    if kind == 'HolesOfEllipse':
        return ElemWithHoles(name, pb, shape('ElemEllipse', k + '.o', x), [shape('OneCurve', k + '.i', x)], True, t)
    return ElemWithHoles(name, pb, shape('ElemCurve', k + '.o', x), [shape('ElemRectangle', k + '.i', x), shape('ElemEllipse', k + '.j', x)], True, t)


def dc():
    d = DrawingContext(None, tf_scale('m'))
    d.points_per_curve = 3
    d.debug = False
    return d


def is_list_of(v, cls):
    return isinstance(v, list) and all(isinstance(x, cls) for x in v)


OPS = {
    'str': lambda e: isinstance(str(e), str),
    'repr': lambda e: isinstance(repr(e), str),
    'eq': lambda e: (e == e) is True and (e != e) is False and (e == None) is False and (e == 3) is False,
    'copy': lambda e: type(e.copy()) is type(e) and e.copy() == e,
    'restore': lambda e: e.restore(e.copy()) is None,
    'restore_self': lambda e: e.restore(e) is None,
    'transform': lambda e: type(e.transform(tf_scale('t'))) is type(e),
    'transform_identity': lambda e: type(e.transform(Transform())) is type(e),
    'paths': lambda e: is_list_of(e.paths(dc()), Path),
    'control_paths': lambda e: is_list_of(e.control_paths(dc()), ControlPath),
    'draw': lambda e: e.draw(dc()) is None,
    'dump': lambda e: isinstance(e.dump(DumpContext()).output(True), str),
    'dump_plain': lambda e: isinstance(e.dump(DumpContext(False)).output(True), str),
    'display': lambda e: e.display() is None,
    'display_brief': lambda e: e.display(0) is None,
    'display_more': lambda e: e.display(2, '  ') is None,
    'as_curves': lambda e: is_list_of(e.as_curves(), ElemCurve),
    'iter_elems': lambda e: all(isinstance(n, str) and isinstance(x, Elem) and (t is None or isinstance(t, Transform))
                                for n, x, t in e.iter_elems('root', Transform())),
    'iter_elems_default': lambda e: all(isinstance(n, str) and isinstance(x, Elem) for n, x, t in e.iter_elems()),
    'attributes': lambda e: (isinstance(e.name, str) and isinstance(e.penbrush, PenBrush) and isinstance(e.closed, bool)
                             and isinstance(e.xform, Transform)),
}


def case_shape(kind=SHAPES, op=tuple(OPS), xform=(True, False)):
    check(OPS[op](shape(kind, 'e', xform)), op + ' works')


def case_unnamed(kind=SHAPES, op=tuple(OPS)):
    """a shape need not have a name"""
    e = shape(kind, 'e', True, None)
    check(OPS[op](e), op + ' works')
    same(e.name, '', 'it has an empty name')


GROUP_OPS = ('str', 'repr', 'eq', 'copy', 'restore', 'transform', 'paths', 'control_paths', 'draw', 'dump', 'dump_plain', 'display', 'display_brief',
             'display_more', 'iter_elems', 'iter_elems_default', 'as_curves', 'attributes')


def named_points(kind):
    """the kinds of points a group may hold, on named and unnamed bases, themselves named or not"""
    base = named_pt('base')
    rel = PointRelative(real('dx'), real('dy'), Point(real('x'), real('y')))
    return {'Point': Point(1, 2), 'NamedPoint': base, 'ControlPoint corner': cp('c').c, 'PointRelative': rel,
            'PointRelative named': PointRelative(1, 2, base, 'rel'), 'PointRelative on relative': PointRelative(1, 2, rel),
            'PointCalc': PointCalc(rel, 2), 'PointCalc named': PointCalc(PointRelative(1, 2, base), 0.5, 'calc'),
            'PointCalc on calc': PointCalc(PointRelative(3, 4, PointCalc(rel, 2)), -1)}[kind]


def case_group_points(kind=('Point', 'NamedPoint', 'ControlPoint corner', 'PointRelative', 'PointRelative named', 'PointRelative on relative',
                            'PointCalc', 'PointCalc named', 'PointCalc on calc'), op=GROUP_OPS):
    """a group may hold points of every kind"""
    p = named_points(kind)
    g = Group('g', PenBrush('ink'), elems=[ElemRectangle('r', PenBrush('ink'), pt('p1'), pt('p2'))], points={'a': Point(0, 0), 'p': p, 'q': p})
    check(OPS[op](g), op + ' works')


def case_shape_boxes(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve', 'OpenCurve', 'OneCurve', 'Group', 'Nested'),
                     op=('bbox', 'bbox_int', 'center')):
    e = shape(kind, 'e')
    if op == 'center':
        check(isinstance(e.center(), Point), 'a point')
    else:
        b = e.bbox() if op == 'bbox' else e.bbox_int()
        check(isinstance(b, BBox) and not b.is_none, 'a box')


def case_holes_boxes(op=('bbox', 'bbox_int', 'center'), n=(0, 1)):
    """a shape with holes that lie inside"""
    x, y, w = real('x'), real('y'), pos('w')
    pb = PenBrush('ink', 'wash')
    e = ElemWithHoles('n', pb, ElemRectangle('o', pb, Point(x, y), Point(x + 4 * w, y + 3 * w)),
                      [ElemRectangle('i', pb, Point(x + w, y + w), Point(x + 2 * w, y + 2 * w))][:n])
    same({'bbox': lambda: e.bbox(), 'bbox_int': lambda: e.bbox_int(),
          'center': lambda: BBox(e.center(), e.center())}[op](),
         BBox(x, y, x + 4 * w, y + 3 * w) if op != 'center' else BBox(x + 2 * w, y + 1.5 * w, x + 2 * w, y + 1.5 * w), 'that of the outside')


def case_shape_after_use(kind=SHAPES, first=('transform', 'paths', 'draw', 'as_curves', 'dump'), then=('copy', 'paths', 'repr', 'dump', 'eq')):
    """one operation never spoils the next"""
    e = shape(kind, 'e')
    OPS[first](e)
    check(OPS[then](e), '%s works after %s' % (then, first))


def case_derived(kind=SHAPES, how=('copy', 'transform', 'restored'), op=('copy', 'paths', 'control_paths', 'repr', 'dump', 'eq', 'as_curves', 'transform', 'restore')):
    """derived shapes are as good as constructed ones"""
    e = shape(kind, 'e')
    if how == 'copy':
        f = e.copy()
    elif how == 'transform':
        f = e.transform(tf_scale('t'))
    else:
        f = shape(kind, 'f')
        f.restore(e)
    check(OPS[op](f), op + ' works')


def case_curves(kind=('ElemCurve', 'OpenCurve', 'OneCurve'), op=('fixed', 'add_one', 'replace', 'as_digi_points', 'control_points_transformed')):
    e = shape(kind, 'e')
    ops = {'fixed': lambda: type(e.fixed()) is ElemCurve, 'add_one': lambda: e.add_one() is None, 'replace': lambda: e.replace(e, e) == 0,
           'as_digi_points': lambda: is_list_of(list(e.as_digi_points()), ControlPoint),
           'control_points_transformed': lambda: is_list_of(e.control_points_transformed(tf_scale('t')), ControlPoint)}
    if kind == 'OneCurve' or op != 'add_one':
        check(ops[op](), op + ' works')


def case_p1p2(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse'), op=('points', 'points_transformed', 'make_control_points', 'as_digi_points', 'bbox_int_update')):
    e = shape(kind, 'e')
    ops = {'points': lambda: is_list_of(e.points(), BasePoint) and len(e.points()) == 4,
           'points_transformed': lambda: is_list_of(e.points_transformed(tf_scale('t')), BasePoint),
           'make_control_points': lambda: is_list_of(e.make_control_points(), ControlPoint),
           'as_digi_points': lambda: is_list_of(list(e.as_digi_points()), ControlPoint),
           'bbox_int_update': lambda: e.bbox_int_update(BBox(0, 0, 20, 30)) is None}
    check(ops[op](), op + ' works')


def case_abstract(cls=('Elem', 'ElemP1P2', 'BasePoint', 'Transformer')):
    """classes that only describe what others do cannot be made"""
    c = {'Elem': Elem, 'ElemP1P2': ElemP1P2, 'BasePoint': BasePoint, 'Transformer': Transformer}[cls]
    args = {'Elem': ('n', PenBrush('ink'), True), 'ElemP1P2': ('n', PenBrush('ink'), Point(0, 0), Point(1, 1)), 'BasePoint': (), 'Transformer': ()}[cls]
    check(raises(TypeError, c, *args), 'cannot be made')


def case_builder(op=('display', 'dump', 'iter_elems', 'iter_elems_transformed', 'draw')):
    b = GroupBuilder('g', PensByShape())
    b.rect('r', pt('p'), pt('q'))
    ops = {'display': lambda: b.display() is None, 'dump': lambda: isinstance(b.dump().output(), str),
           'iter_elems': lambda: len(list(b.iter_elems())) == 1, 'iter_elems_transformed': lambda: len(list(b.iter_elems_transformed())) == 1,
           'draw': lambda: b.draw(dc()) is None}
    check(ops[op](), op + ' works')


# ---------------------------------------------------------------------- points and vectors
POINT_OPS = {
    'str': lambda p, q, v: isinstance(str(p), str),
    'repr': lambda p, q, v: isinstance(repr(p), str),
    'eq': lambda p, q, v: (p == p) is True and (p == None) is False and (p == 3) is False and isinstance(p == q, bool),
    'close': lambda p, q, v: isinstance(p.close(q), bool),
    'x': lambda p, q, v: p.xy() == (p.x, p.y),
    'iter': lambda p, q, v: tuple(p) == p.xy(),
    'sub': lambda p, q, v: isinstance(p - q, Vector),
    'add_vector': lambda p, q, v: isinstance(p + v, BasePoint) and isinstance(v + p, BasePoint),
    'sub_vector': lambda p, q, v: isinstance(p - v, BasePoint),
    'neg': lambda p, q, v: isinstance(-p, BasePoint),
    'mid': lambda p, q, v: isinstance(p.mid(q), BasePoint),
    'round': lambda p, q, v: isinstance(round(p), BasePoint) and isinstance(round(p, 2), BasePoint) and isinstance(p.round(2), BasePoint),
    'copy': lambda p, q, v: type(p.copy()) is type(p),
    'fixed': lambda p, q, v: type(p.fixed()) is Point,
    'v': lambda p, q, v: isinstance(p.v, Vector),
    'box': lambda p, q, v: isinstance(BBox(p, q), BBox),
    'line': lambda p, q, v: isinstance(Line(p, v).p2, BasePoint) and isinstance(Line(p, q).p2, BasePoint),
    'line_text': lambda p, q, v: all([isinstance(str(s), str) and isinstance(repr(s), str) for s in (Line(p, v), Line(p, q), Line(p, q - p), Line(p, -v))]),
    'transform': lambda p, q, v: isinstance(tf('t').transform_pt(p), Point),
    'control': lambda p, q, v: isinstance(ControlPoint(p, v, v).l, BasePoint),
}


def case_points(kind=POINTS + ('PointRelative2',), other=('Point', 'PointRelative', 'PointCalc'), vkind=VECTORS, op=tuple(POINT_OPS)):
    p, q, v = point_of(kind, 'p'), point_of(other, 'q'), vector_of(vkind, 'v')
    check(POINT_OPS[op](p, q, v), op + ' works')


VECTOR_OPS = {
    'str': lambda u, v: isinstance(str(u), str),
    'repr': lambda u, v: isinstance(repr(u), str),
    'eq': lambda u, v: (u == u) is True and (u == None) is False and isinstance(u == v, bool),
    'close': lambda u, v: isinstance(u.close(v), bool),
    'x': lambda u, v: u.xy() == (u.x, u.y),
    'iter': lambda u, v: tuple(u) == u.xy(),
    'add': lambda u, v: isinstance(u + v, Vector) and isinstance(u - v, Vector),
    'mul': lambda u, v: isinstance(u * 2, Vector) and isinstance(2 * u, Vector) and isinstance(u / 2, Vector),
    'neg': lambda u, v: isinstance(-u, Vector),
    'length': lambda u, v: u.length() >= 0 and u.length2() >= 0 if hasattr(u, 'length2') else u.length() >= 0,
    'rotate': lambda u, v: isinstance(u.rotate(30), Vector),
    'normal': lambda u, v: isinstance(u.normal(), Vector),
    'dot': lambda u, v: u.dot(v) == v.dot(u) and u.cross(v) == -v.cross(u),
    'round': lambda u, v: isinstance(round(u), Vector) and isinstance(u.round(2), Vector),
    'copy': lambda u, v: isinstance(u.copy(), Vector),
    'fixed': lambda u, v: type(u.fixed()) is Vector,
    'p': lambda u, v: isinstance(u.p, BasePoint),
    'bool': lambda u, v: isinstance(bool(u), bool),
    'angle': lambda u, v: isinstance(u.angle(), float),
}


def case_vectors(kind=VECTORS, other=VECTORS, op=tuple(VECTOR_OPS)):
    u, v = vector_of(kind, 'u'), vector_of(other, 'v')
    check(VECTOR_OPS[op](u, v), op + ' works')


# ---------------------------------------------------------------------- maps
def field():
    return Mesh(BBox(0, 0, 1, 1), 2).zeros()


def some_map(kind):
    return {'Transform': lambda: tf('t'), 'identity': lambda: Transform(), 'VectorField': field}[kind]()


def case_maps(kind=('Transform', 'identity', 'VectorField'),
              op=('transform', 'transform_pt', 'transform_pt_xy', 'transform_pts', 'transform_pts_xy', 'transform_flat', 'transform_width', 'control', 'eq', 'copy')):
    m = some_map(kind)
    p, q, x, y = pt('p'), pt('q'), real('x'), real('y')
    ops = {
        'transform': lambda: len(m.transform(x, y)) == 2,
        'transform_pt': lambda: isinstance(m.transform_pt(p), Point),
        'transform_pt_xy': lambda: isinstance(m.transform_pt(p, False), tuple),
        'transform_pts': lambda: is_list_of(m.transform_pts([p, q]), Point) and len(m.transform_pts([p, q])) == 2,
        'transform_pts_xy': lambda: is_list_of(m.transform_pts([(x, y), (y, x)]), tuple),
        'transform_flat': lambda: len(m.transform_pts([p, q], True)) == 4,
        'transform_width': lambda: m.transform_width(1) >= 0,
        'control': lambda: isinstance(cp('c', 'smooth').transform(m), ControlPoint),
        'eq': lambda: (m == m) is True and (m == None) is False and (m == 3) is False,
        'copy': lambda: type(m.copy()) is type(m) and m.copy() == m,
    }
    check(ops[op](), op + ' works')


def case_inplace_returns(op=('translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'compose', 'compose_outer', 'scale_bbox', 'reset', 'push')):
    """operations on a map can be chained"""
    t = tf('t')
    ops = {'translate': lambda: t.translate(1, 2), 'scale': lambda: t.scale(2, 3), 'rotate': lambda: t.rotate(30), 'rotate_ccw': lambda: t.rotate_ccw(30),
           'rotate_about': lambda: t.rotate_about(30, pt('p')), 'compose': lambda: t.compose(tf('u')), 'compose_outer': lambda: t.compose_outer(tf('u')),
           'scale_bbox': lambda: t.scale_bbox(BBox(0, 0, 1, 1), bb_sorted('b')), 'reset': lambda: t.reset(), 'push': lambda: t.push()}
    check(identical(ops[op](), t), 'returns the map itself')


# ---------------------------------------------------------------------- what the package offers
MODULES = {'geom': geom, 'transform': transform, 'model': model, 'bezier': bezier, 'colors': colors}


def case_exports(module=('geom', 'transform', 'model', 'bezier', 'colors')):
    """every name a module says it offers is there"""
    m = MODULES[module]
    names = m.__all__
    check(len(names) > 0, 'something is offered')
    check(all(hasattr(m, n) for n in names), 'and all of it exists')
    check(len(names) == len(set(names)), 'nothing is offered twice')


# rules of other properties which say that an operation works for every kind of thing it may be given
GUESTS = {
    'c18': ('target_follows',),
}
