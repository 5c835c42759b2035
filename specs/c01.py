"""C01: derived / query operations change nothing a client can observe."""
from specs.prelude import *
from specs.c29 import SHAPES, line_crossings, outline, solve, straight
from x7.geom.anim import Animation
from x7.geom.bezier import bez_self_intersect
from x7.geom.utils import (arc, arc2p, check_point_list, circle, cross, path_rotate, path_rotate_ccw,
                           path_translate, path_to_xy, path_from_xy, plus)


def frame(msg, op, *objs):
    """op() may do anything except change an observable of objs or of the package itself"""
    before = observe(*objs)
    w = world()
    done = False
    try:
        op()
        done = True
    except Exception:
        pass
    live(done, msg + ': never completes')
    same(observe(*objs), before, msg + ': operands unchanged')
    same(world(), w, msg + ': package state unchanged')


POINT_OPS = {
    'add': lambda p, v, q: (p + v, v + p),
    'sub': lambda p, v, q: (p - v, p - q),
    'neg': lambda p, v, q: -p,
    'mid': lambda p, v, q: p.mid(q),
    'round': lambda p, v, q: (round(p, 2), p.round(1)),
    'fixed': lambda p, v, q: p.fixed(),
    'copy': lambda p, v, q: p.copy(),
    'close': lambda p, v, q: p.close(q),
    'eq': lambda p, v, q: (p == q, p != q),
    'text': lambda p, v, q: (str(p), repr(p)),
    'coords': lambda p, v, q: (p.x, p.y, p.xy(), p.v, list(p)),
}


def case_point(kind=POINTS, op=tuple(POINT_OPS)):
    p, v, q = point_of(kind, 'p'), vec('v'), point_of(kind, 'q')
    frame('point ' + op, lambda: POINT_OPS[op](p, v, q), p, v, q)


VECTOR_OPS = {
    'add': lambda u, v, p: (u + v, u + p),
    'sub': lambda u, v, p: u - v,
    'mul': lambda u, v, p: (u * 3, 3 * u, u / 2),
    'neg': lambda u, v, p: -u,
    'round': lambda u, v, p: (round(u, 2), u.round(1)),
    'fixed': lambda u, v, p: u.fixed(),
    'copy': lambda u, v, p: u.copy(),
    'close': lambda u, v, p: u.close(v),
    'eq': lambda u, v, p: (u == v, u != v),
    'text': lambda u, v, p: (str(u), repr(u)),
    'coords': lambda u, v, p: (u.x, u.y, u.xy(), list(u)),
    'p': lambda u, v, p: u.p,
    'length': lambda u, v, p: u.length(),
    'angle': lambda u, v, p: u.angle(),
    'rotate': lambda u, v, p: u.rotate(30),
    'unit': lambda u, v, p: u.unit(),
    'normal': lambda u, v, p: u.normal(),
    'dot': lambda u, v, p: (u.dot(v), u.cross(v)),
    'bool': lambda u, v, p: bool(u),
}


def case_vector(kind=VECTORS, op=tuple(VECTOR_OPS)):
    u, v, p = vector_of(kind, 'u'), vector_of(kind, 'v'), pt('p')
    frame('vector ' + op, lambda: VECTOR_OPS[op](u, v, p), u, v, p)


BBOX_OPS = {
    'add': lambda a, b, p: a + b,
    'copy': lambda a, b, p: a.copy(),
    'expand': lambda a, b, p: (a.expand(real('ex'), real('ey')), a.expand(real('ex'))),
    'round': lambda a, b, p: round(a, 1),
    'corners': lambda a, b, p: (a.p1, a.p2, a.pll, a.plh, a.phl, a.phh, a.center),
    'measures': lambda a, b, p: (a.width, a.height, a.area(), a.size(), a.as_tuple(), list(a), a.is_none, a.is_empty),
    'contains': lambda a, b, p: (a.contains(b), a.contains_pt(p)),
    'touches': lambda a, b, p: (a.touches(b), a.touches_side(b), a.touches_pt(p)),
    'overlaps': lambda a, b, p: a.overlaps(b),
    'intersection': lambda a, b, p: a.intersection(b),
    'transformed': lambda a, b, p: a.transformed(tf('t')),
    'text': lambda a, b, p: (str(a), repr(a), a == b),
}


def case_bbox(op=tuple(BBOX_OPS)):
    a, b, p = bb_sorted('a'), bb_sorted('b'), pt('p')
    frame('bbox ' + op, lambda: BBOX_OPS[op](a, b, p), a, b, p)


def case_bbox_transformed_operand():
    a, t = bb_sorted('a'), tf('t')
    frame('bbox transformed', lambda: a.transformed(t), a, t)


LINE_OPS = {
    'ends': lambda l, m, p: (l.p1, l.p2, l.midpoint),
    'shift': lambda l, m, p: (l + vec('v'), l - vec('v')),
    'closest': lambda l, m, p: l.closest(p),
    'intersection': lambda l, m, p: l.intersection(m),
    'bbox': lambda l, m, p: l.segment_bbox(),
    'parallel': lambda l, m, p: l.parallel(m),
    'segment': lambda l, m, p: l.segment_intersection(m),
    'eq': lambda l, m, p: (l == m, repr(l), str(l)),
}


def case_line(op=tuple(LINE_OPS)):
    l, m, p = Line(pt('o1'), vec('d1')), Line(pt('o2'), vec('d2')), pt('p')
    frame('line ' + op, lambda: LINE_OPS[op](l, m, p), l, m, p)


CP_OPS = {
    'reversed': lambda a, b, t: a.reversed(),
    'reverse_list': lambda a, b, t: ControlPoint.reverse_list([a, b]),
    'reverse_given': lambda a, b, t, cps: ControlPoint.reverse_list(cps),
    'bez_path_given': lambda a, b, t, cps: bez_path(t, cps, False, 2),
    'fixed': lambda a, b, t: a.fixed(),
    'copy': lambda a, b, t: a.copy(),
    'bbox': lambda a, b, t: a.bbox(),
    'transform': lambda a, b, t: a.transform(t),
    'round': lambda a, b, t: a.round(2),
    'lr': lambda a, b, t: (a.l, a.r),
    'close': lambda a, b, t: a.close(b),
    'eq': lambda a, b, t: (a == b, repr(a), str(a)),
    'split': lambda a, b, t: bez_split(a, b, real('s')),
    'bez': lambda a, b, t: bez([a.c, a.r, b.l, b.c], 4),
    'bez_path': lambda a, b, t: bez_path(t, [a, b], True, 4),
}


def case_cp(op=tuple(CP_OPS)):
    a, b, t = cp('a'), cp('b'), tf('t')
    cps = [a, b]
    frame('control point ' + op, (lambda: CP_OPS[op](a, b, t, cps)) if op.endswith('given') else lambda: CP_OPS[op](a, b, t), a, b, t, cps)


def case_bez_path_list(closed=(True, False)):
    cps, t = [cp('a'), cp('b'), cp('c')], tf('t')
    frame('bez_path', lambda: bez_path(t, cps, closed, 3), cps, t)


def case_bez_points_list():
    pts = [pt('a'), (real('bx'), real('by')), pt('c'), pt('d')]
    frame('bez', lambda: (bez(pts, 3), bez(pts, 3, True)), pts)


def case_polygon_area():
    pts = [pt('a'), pt('b'), pt('c')]
    frame('polygon_area', lambda: polygon_area(pts), pts)


def case_parse():
    pts = [pt('a'), (real('bx'), real('by')), real('cx'), real('cy')]
    frame('parse', lambda: BasePoint.parse(pts), pts)


TF_OPS = {
    'copy': lambda t, u, p, q: t.copy(),
    'inverse': lambda t, u, p, q: t.inverse,
    'as_6tuple': lambda t, u, p, q: t.as_6tuple(),
    'scale_vals': lambda t, u, p, q: t.scale_vals(),
    'is_simple': lambda t, u, p, q: t.is_simple(),
    'simplify': lambda t, u, p, q: t.simplify(),
    'transform': lambda t, u, p, q: t.transform(real('x'), real('y')),
    'transform_pt': lambda t, u, p, q: (t.transform_pt(p), t.transform_pt(p, False)),
    'transform_pts': lambda t, u, p, q: (t.transform_pts(q), t.transform_pts(q, True)),
    'transform_width': lambda t, u, p, q: t.transform_width(real('w')),
    'untransform': lambda t, u, p, q: t.untransform(real('x'), real('y')),
    'untransform_pt': lambda t, u, p, q: t.untransform_pt(p),
    'untransform_pts': lambda t, u, p, q: t.untransform_pts([(1, 2), (real('x'), real('y'))]),
    'text': lambda t, u, p, q: (repr(t), t == u),
}


def case_transform(op=tuple(TF_OPS)):
    t, u, p = tf_inv('t'), tf('u'), pt('p')
    q = [p, pt('p2')]
    frame('transform ' + op, lambda: TF_OPS[op](t, u, p, q), t, u, p, q)


def case_transform_argument(op=('compose', 'compose_outer', 'set_matrix', 'scale_bbox', 'rotate_about')):
    """operations that change their receiver leave their argument alone"""
    t, u, p = tf('t'), tf('u'), pt('p')
    a, b = BBox(0, 0, pos('w'), pos('h')), bb_sorted('b')
    ops = {
        'compose': lambda: t.compose(u),
        'compose_outer': lambda: t.compose_outer(u),
        'set_matrix': lambda: t.set_matrix(u),
        'scale_bbox': lambda: t.scale_bbox(a, b),
        'rotate_about': lambda: t.rotate_about(30, p),
    }
    frame('transform argument of ' + op, ops[op], u, p, a, b)


ELEM_OPS = {
    'copy': lambda e, t, d: e.copy(),
    'transform': lambda e, t, d: e.transform(t),
    'bbox': lambda e, t, d: e.bbox(),
    'bbox_int': lambda e, t, d: e.bbox_int(),
    'center': lambda e, t, d: e.center(),
    'control_paths': lambda e, t, d: e.control_paths(d),
    'as_curves': lambda e, t, d: e.as_curves(),
    'text': lambda e, t, d: (str(e), repr(e)),
    'eq': lambda e, t, d: e == e,
    'dump': lambda e, t, d: e.dump(DumpContext()),
    'display': lambda e, t, d: e.display(),
    'iter_elems': lambda e, t, d: list(e.iter_elems('root', t)),
}


def case_elem(kind=ELEMS, op=tuple(ELEM_OPS)):
    e, t, d = elem_of(kind, 'e'), tf('t'), dctx('d')
    frame(kind + ' ' + op, lambda: ELEM_OPS[op](e, t, d), e, t, d)


def case_elem_eq_other(kind=ELEMS):
    e, f = elem_of(kind, 'e'), elem_of(kind, 'f')
    frame(kind + ' equality', lambda: (e == f, e != f), e, f)


def case_elem_restore_source(kind=ELEMS):
    """restoring from a saved copy does not change the saved copy"""
    e = elem_of(kind, 'e')
    f = elem_of(kind, 'f')
    frame(kind + ' restore source', lambda: e.restore(f), f)


PATH_KINDS = ('ElemRectangle', 'OpenCurve')


def case_elem_paths(kind=('ElemRectangle', 'ElemEllipse', 'ElemCurve', 'OpenCurve', 'Group', 'ElemWithHoles')):
    e, d = elem_flat(kind, 'e'), dctx('d')
    d.points_per_curve = 2
    frame(kind + ' paths', lambda: e.paths(d), e, d)


def case_elem_draw(kind=('ElemRectangle', 'ElemCurve', 'Group')):
    e, d = elem_flat(kind, 'e'), dctx('d')
    d.points_per_curve = 2
    d.debug = False
    d.prod = flag('prod')
    frame(kind + ' draw', lambda: e.draw(d), e, d)


def case_elem_draw_control_points(kind=('ElemRectangle', 'ElemCurve')):
    e, d = elem_flat(kind, 'e'), dctx('d')
    frame(kind + ' draw_control_points', lambda: e.draw_control_points(d), e, d)


def case_group(op=('iter_elems_transformed', 'lookup', 'lookup_pt', 'lookup_missing')):
    g, t = elem_of('Group', 'g'), tf('t')
    ops = {
        'iter_elems_transformed': lambda: list(g.iter_elems_transformed('r', t)),
        'lookup': lambda: g.lookup('a'),
        'lookup_pt': lambda: g.lookup_pt('p'),
        'lookup_missing': lambda: outcome(g.lookup, 'zz'),
    }
    frame('group ' + op, ops[op], g, t)


def unordered_group(name):
    """members and points whose order is not that of their names"""
    pb = penbrush(name)
    members = [ElemRectangle(k, pb, pt('%s.%s.p' % (name, k)), pt('%s.%s.q' % (name, k))) for k in ('m', 'b', 'z', 'a')]
    pts = {k: Point(real('%s.%s.x' % (name, k)), real('%s.%s.y' % (name, k)), k) for k in ('q', 'c', 'x')}
    return Group(name, pb, False, None, members, pts, True)


UNORDERED_OPS = dict(ELEM_OPS)
UNORDERED_OPS.update({
    'iter_elems_transformed': lambda e, t, d: list(e.iter_elems_transformed('r', t)),
    'lookup': lambda e, t, d: (outcome(e.lookup, 'b'), outcome(e.lookup, 'g.z')),
    'lookup_pt': lambda e, t, d: outcome(e.lookup_pt, 'c'),
    'display shallow': lambda e, t, d: e.display(detail=0, prefix='  '),
    'equality': lambda e, t, d: (e == unordered_group('o'), e != 3),
    'draw': lambda e, t, d: e.draw(d),
    'paths': lambda e, t, d: e.paths(d),
    'draw_control_points': lambda e, t, d: e.draw_control_points(d),
})


def case_unordered_group(op=tuple(UNORDERED_OPS), nested=(False, True)):
    g, t, d = unordered_group('g'), tf('t'), dctx('d')
    d.debug = False
    d.prod = False
    if nested:
        g = Group('outer', penbrush('o'), False, None, [ElemRectangle('zz', penbrush('r'), pt('r.p'), pt('r.q')), g,
                  ElemRectangle('aa', penbrush('r'), pt('t.p'), pt('t.q'))], None, True)
    frame('group in no particular order, ' + op, lambda: UNORDERED_OPS[op](g, t, d), g, t, d)


def case_unordered_holes(op=('iter_elems_transformed', 'bbox', 'display', 'control_paths', 'dump', 'copy', 'eq')):
    pb = penbrush('h')
    inside = [ElemRectangle(k, pb, pt('h.%s.p' % k), pt('h.%s.q' % k)) for k in ('z', 'a', 'm')]
    h = ElemWithHoles('h', pb, curve('h.o', 2), inside)
    ops = dict(UNORDERED_OPS)
    t, d = tf('t'), dctx('d')
    frame('holes in no particular order, ' + op, lambda: ops[op](h, t, d), h, t, d)


def case_holes(op=('iter_elems_transformed', 'lookup_missing')):
    g, t = elem_of('ElemWithHoles', 'g'), tf('t')
    ops = {
        'iter_elems_transformed': lambda: list(g.iter_elems_transformed('r', t)),
        'lookup_missing': lambda: outcome(g.lookup, 'zz'),
    }
    frame('holes ' + op, ops[op], g, t)


def case_curve(op=('fixed', 'control_points_transformed', 'as_digi_points')):
    e, t = elem_of('ElemCurve', 'e'), tf('t')
    ops = {
        'fixed': lambda: e.fixed(),
        'control_points_transformed': lambda: e.control_points_transformed(t),
        'as_digi_points': lambda: e.as_digi_points(),
    }
    frame('curve ' + op, ops[op], e, t)


OUTLINES = {
    'ccw': ((0, 0), (8, 0), (8, 6), (0, 6)),
    'cw': ((0, 0), (0, 6), (8, 6), (8, 0)),
    'crossing': ((0, 0), (8, 6), (8, 0), (0, 6)),
}
SHAPE_OPS = {
    'offset': lambda e, t, d: e.offset(1),
    'offset inwards': lambda e, t, d: e.offset(-1),
    'offset nothing': lambda e, t, d: e.offset(0),
    'control_points_transformed': lambda e, t, d: e.control_points_transformed(t),
    'as_digi_points': lambda e, t, d: e.as_digi_points(),
    'fixed': lambda e, t, d: e.fixed(),
    'as_curves': lambda e, t, d: e.as_curves(),
    'bbox': lambda e, t, d: (e.bbox(), e.bbox_int(), e.center()),
    'control_paths': lambda e, t, d: e.control_paths(d),
    'dump': lambda e, t, d: e.dump(DumpContext()),
    'copy': lambda e, t, d: (e.copy(), e.transform(t), e.transform(Transform())),
}


def case_outline(run=tuple(OUTLINES), op=tuple(SHAPE_OPS), closed=(True, False), placed=(None, 'nothing', 'moved')):
    """a concrete outline, run around either way, keeps its points and their order"""
    cps = [ControlPoint(Point(x, y), Vector(-1, 0.5 * i), Vector(1, 0.25), kind=('smooth', 'sharp')[i % 2])
           for i, (x, y) in enumerate(OUTLINES[run])]
    x = {None: None, 'nothing': Transform(), 'moved': Transform().translate(3, 2)}[placed]
    e, t, d = ElemCurve('e', PenBrush(Pen(word('stroke'), real('width'))), cps, closed, x), tf('t'), dctx('d')
    frame('outline, ' + op, lambda: SHAPE_OPS[op](e, t, d), e, cps, t, d)


def case_outline_crossings(shape=('bow', 'none'), placed=(None, 'nothing')):
    """finding where an outline crosses itself keeps the outline"""
    cps = straight(SHAPES['bow'] if shape == 'bow' else ((0, 0), (4, 0), (5, 3), (2, 6), (-1, 4)))
    crossings = line_crossings(SHAPES['bow']) if shape == 'bow' else []
    e = ElemCurve('e', penbrush('e'), cps, True, Transform() if placed else None)
    solve(outline([cp.transform(e.xform) for cp in cps]), crossings)
    frame('crossings of an outline', lambda: e.self_intersect(), e, cps)
    frame('crossings of control points', lambda: bez_self_intersect(cps), cps)


PATH_OPS = {
    'translate': lambda q, p, v, a: path_translate(q, v, a),
    'translate to': lambda q, p, v, a: path_translate(q, p, a),
    'translate nothing': lambda q, p, v, a: (path_translate(q, Vector(0, 0), a), path_translate(q, Point(0, 0), a)),
    'rotate': lambda q, p, v, a: path_rotate(q, 30, a),
    'rotate_ccw': lambda q, p, v, a: path_rotate_ccw(q, 90, a),
    'rotate nothing': lambda q, p, v, a: (path_rotate(q, 0, a), path_rotate_ccw(q, 360, a)),
    'to_xy': lambda q, p, v, a: path_from_xy(path_to_xy(q)),
    'check': lambda q, p, v, a: check_point_list(q),
    'transform_pts': lambda q, p, v, a: tf('t').transform_pts(q, a),
    'area': lambda q, p, v, a: polygon_area(q),
    'box': lambda q, p, v, a: BBox(*q[:2]),
    'bez_path': lambda q, p, v, a: bez_path(tf('t'), [ControlPoint(r, v, v) for r in q], a, 2),
    'bez': lambda q, p, v, a: bez((q + [p])[:4], 2, a),
    'arcs': lambda q, p, v, a: (arc(2, 0, 90, p, 3), circle(2, p), cross(2, p), plus(2, q[0])),
}


def case_path(op=tuple(PATH_OPS), as_pt=(True, False)):
    """lists of points (some relative to others) stay what they are"""
    p, v = PointRelative(real('px'), real('py'), pt('pb')), VectorRelative(pt('v1'), pt('v2'))
    q = [pt('a'), PointRelative(real('bx'), real('by'), p), named_pt('c'), point_of('PointRelative', 'd')]
    frame('path ' + op, lambda: PATH_OPS[op](q, p, v, as_pt), q, p, v)


def case_constructor_arguments():
    """building a shape does not change what it is built from"""
    cps = [cp('a'), cp('b')]
    x, p1, p2, pb = tf('x'), pt('p1'), pt('p2'), penbrush('b')
    frame('constructors', lambda: (
        ElemCurve('c', pb, cps, True, x), ElemRectangle('r', pb, p1, p2, xform=x), ElemEllipse('e', pb, p1, p2),
        ElemRectangleRounded('q', pb, p1, p2, 3, xform=x), Line(p1, p2), BBox(p1, p2), PointRelative(1, 2, p1),
        VectorRelative(p1, p2)), cps, x, p1, p2, pb)


def case_group_constructor_arguments(form=('list', 'dict')):
    a = ElemRectangle('a', penbrush('b'), pt('p1'), pt('p2'))
    elems = [a] if form == 'list' else {'a': a}
    points = {'p': pt('q')}
    g = None
    before = observe(elems, points)
    w = world()
    g = Group('g', PenBrush('red'), elems=elems, points=points)
    same(observe(elems, points), before, 'Group(): arguments unchanged')
    same(world(), w, 'Group(): package state unchanged')


def case_group_mutation_does_not_reach_caller_containers():
    """adding to a group never changes the containers it was built from"""
    a = ElemRectangle('a', penbrush('b'), pt('p1'), pt('p2'))
    elems = {'a': a}
    n = len(elems)
    g = Group('g', PenBrush('red'), elems=elems)
    g.add('z', ElemRectangle('z', penbrush('b'), pt('p3'), pt('p4')))
    check(len(elems) == n, 'Group.add leaves the constructor mapping alone')


class Special(ElemRectangle):
    """a shape of a client"""
    ELEM_IMPORTS = ['from mine import Special', 'from mine import other']


def case_client_shape(op=('dump', 'dump twice', 'dump plain', 'in group', 'imports')):
    """writing a shape that needs imports of its own leaves no trace in later dumps"""
    def ordinary():
        return ElemRectangle('r', PenBrush('red'), Point(1, 2), Point(3, 4)).dump(DumpContext()).output()
    e = Special('s', penbrush('s'), pt('p'), pt('q'))
    d = DumpContext()
    before, defaults, w = ordinary(), list(DumpContext.DEFAULT_IMPORTS), world()
    if op == 'dump plain':
        e.dump(DumpContext(False))
    elif op == 'in group':
        Group('g', penbrush('g'), False, None, [e], None, True).dump()
    elif op == 'imports':
        d.add_imports(['import zzz'])
        d.output(True)
    else:
        e.dump(DumpContext())
        if op == 'dump twice':
            e.dump(DumpContext())
    same(list(DumpContext.DEFAULT_IMPORTS), defaults, 'what every dump imports is as before')
    same(DumpContext().imports, defaults, 'a new dump starts with that')
    same(ordinary(), before, 'another shape is written as before')
    same(world(), w, 'package state unchanged')


PEN_OPS = {
    'pen width': lambda p, b, t: p.pen.replace(width=3),
    'pen brush': lambda p, b, t: p.pen.replace('blue'),
    'width': lambda p, b, t: p.replace(width=real('w')),
    'zero width': lambda p, b, t: p.replace(width=0),
    'brush': lambda p, b, t: p.replace(brush='blue'),
    'pen': lambda p, b, t: p.replace(pen=Pen('blue', 2), brush=b),
    'texts': lambda p, b, t: (str(p), repr(p), str(p.pen), repr(p.pen), str(p.brush), repr(p.brush), str(t), repr(t)),
    'equal': lambda p, b, t: (p == p.replace(), p.pen == p.replace(width=9).pen, p.brush == b),
    'read': lambda p, b, t: (p.filled, p.stroked, p.fill_color, p.stroke_color),
    'stroke': lambda p, b, t: p.stroke_width(tf('x')),
    'table width': lambda p, b, t: t.replace_width(7),
    'table zero': lambda p, b, t: t.replace_width(0),
    'table keys': lambda p, b, t: [t[k] for k in t.keys()],
    'table changed': lambda p, b, t: t.replace_width(7)['edge'].replace(width=8),
    'builder': lambda p, b, t: GroupBuilder('b', t, 'filled').rect('r', pt('p'), pt('q')),
    'made': lambda p, b, t: (PenBrush(p.pen, b).replace(width=9), Pen(b, 3).replace(width=1)),
}


def case_pens(op=tuple(PEN_OPS), brush=(True, False)):
    """pens, brushes and tables of them are as before, and so is everyone who shares them"""
    b = Brush(word('f'))
    p = PenBrush(Pen(word('c'), real('w0')), b if brush else None)
    t = PensByShape(edge=p, filled=PenBrush(None, b), edge_filled=PenBrush(p.pen, b))
    e = ElemRectangle('r', p, pt('p'), pt('q'))
    frame('pens ' + op, lambda: PEN_OPS[op](p, b, t), p, b, t, e, PensByShape())


ANIM_OPS = {
    'interpolate': lambda p, t: Animation.interpolate(p)(t),
    'interpolate pair': lambda p, t: Animation.interpolate(p)((t, t)),
}


def case_anim_functions(op=('interpolate', 'interpolate pair'), order=((1, 0), (0, 1), (2, 0, 1), (0, 2, 1))):
    """points of a curve are not put in order, nor changed"""
    pts = [(k, real('v%d' % i)) for i, k in enumerate(order)]
    frame('Animation: ' + op, lambda: ANIM_OPS[op](pts, 0.5), pts)
    given = [(k, real('v%d' % i)) for i, k in enumerate(order)]
    same(pts, given, 'the points given are as given')


def case_default_arguments():
    """objects built with defaults do not influence one another"""
    g1, g2 = Group('g1', PenBrush('red')), Group('g2', PenBrush('blue'))
    g1.add_pt('p', pt('p'))
    g1.add('e', ElemRectangle('e', penbrush('c'), pt('q'), pt('r')))
    check(len(g2.points) == 0, 'points of a default group are its own')
    check(len(g2.elems) == 0, 'elements of a default group are its own')
    r1, r2 = ElemRectangle('a', penbrush('a'), pt('p'), pt('q')), ElemRectangle('b', penbrush('a'), pt('p'), pt('q'))
    r1.xform.translate(real('dx'), real('dy'))
    same(r2.xform, Transform(), 'default transform is its own')
    d1, d2 = DumpContext(), DumpContext()
    d1.add_imports(['import zzz'])
    d1.append('line')
    d1.set_var(pt('p'))
    same(d2, DumpContext(), 'dump contexts are independent')
    same(len(DumpContext.DEFAULT_IMPORTS), len(DumpContext().imports), 'default imports unchanged')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c12': ('tuple_argument', 'independence'),
    'c14': ('inputs_unchanged',),
    'c16': ('helpers_give_new_points',),
    'c11': ('normal', 'normal_group_transformed'),
    'c15': ('offset_direction',),
}
