G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'; TS = 'x7/geom/testing.py'
REFS = [
dict(id='r4-transform-decorator', edits=[(T, '''class Transform(Transformer):
    def __init__(self, mat2x3=None):''', '''def _changes_matrix(func):
    """Decorator for methods which change the matrix: forget the cached inverse, return self"""
    @functools.wraps(func)
    def wrapper(self, *args, **kwargs):
        func(self, *args, **kwargs)
        self._inverse = None
        return self
    return wrapper


class Transform(Transformer):
    def __init__(self, mat2x3=None):'''), (T, '''    def translate(self, dx, dy):
        self._mat.pre_dot_eq(self.translate_mat(dx, dy))
        self._inverse = None
        return self

    def scale(self, sx, sy):
        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
        self._inverse = None
        return self
''', '''    @_changes_matrix
    def translate(self, dx, dy):
        self._mat.pre_dot_eq(self.translate_mat(dx, dy))

    @_changes_matrix
    def scale(self, sx, sy):
        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
'''), (T, '''        """Counterclockwise in degrees"""
        self._mat.pre_dot_eq(self.rotate_mat(math.radians(degrees)))
        self._inverse = None
        return self

    def rotate_ccw(self, degrees):
        """Counterclockwise in degrees"""
        self._mat.pre_dot_eq(self.rotate_mat_ccw(math.radians(degrees)))
        self._inverse = None
        return self
''', '''        """Counterclockwise in degrees"""
        return self._outer(self.rotate_mat(math.radians(degrees)))

    def rotate_ccw(self, degrees):
        """Counterclockwise in degrees"""
        return self._outer(self.rotate_mat_ccw(math.radians(degrees)))

    @_changes_matrix
    def _outer(self, ndmat):
        self._mat.pre_dot_eq(ndmat)
'''), (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        return self._outer(getattr(transmat, '_mat', transmat).ndmat)
'''), (T, 'import math\n', 'import functools\nimport math\n')]),
dict(id='r4-transform-partial', edits=[(T, '''        a, b, c, d, e, f = self.as_6tuple()
        a = 0 if near_zero(a) else a
        b = 0 if near_zero(b) else b
        d = 0 if near_zero(d) else d
        e = 0 if near_zero(e) else e
        if self.is_simple():
            return Transform((a, b, c, d, e, f)), Transform()
        else:
            return Transform((1, 0, c, 0, 1, f)), Transform((a, b, 0, d, e, 0))
''', '''        (a, b, d, e), (c, f) = self._linear_and_shift()
        a, b, d, e = (0 if near_zero(v) else v for v in (a, b, d, e))
        match self.is_simple():
            case True:
                parts = (a, b, c, d, e, f), None
            case _:
                parts = (1, 0, c, 0, 1, f), (a, b, 0, d, e, 0)
        return tuple(map(Transform, parts))

    def _linear_and_shift(self):
        """The 2x2 part, row by row, and the last column"""
        rows = self._mat.ndmat[:2]
        return tuple(v for row in rows for v in row[:2]), tuple(row[2] for row in rows)
'''), (T, '''        ndmat = self._mat.ndmat

        return near_zero(ndmat[0][1]) and near_zero(ndmat[1][0]) or (near_zero(ndmat[0][0]) and near_zero(ndmat[1][1]))
''', '''        (a, b), (d, e) = self._mat.ndmat[:2, :2]
        diagonals = (b, d), (a, e)
        return any(all(near_zero(v) for v in diagonal) for diagonal in diagonals)
''')]),
dict(id='r4-untransform', edits=[(T, '''        p = np.array([x, y, 1.]).T
        # print('transform: p=', p)
        pp = np.dot(self.inverse, p).T
        return pp[0], pp[1]
''', '''        px, py, _ = self.inverse @ np.array([x, y, 1.])
        return px, py
'''), (T, '''        pts = np.array([(x, y, 1) for x, y in pts]).T
        # print('transform: pts=', pts)
        pts = np.dot(self.inverse, pts).T
        return [(x, y) for x, y, z in pts]
''', '''        columns = np.vstack([np.array([tuple(p) for p in pts], dtype=float).T, np.ones(len(pts))])
        return list(map(tuple, (self.inverse @ columns)[:2].T))
'''), (T, '''        np_pts = self.transform_np_pts(self.points_to_np_points(pts))
        if flatten:
            return [v for x, y, *_ in np_pts for v in (x, y)]
        elif isinstance(pts[0], BasePoint):
            return [Point(x, y) for x, y, *_ in np_pts]
        else:
            return [(x, y) for x, y, *_ in np_pts]
''', '''        xys = [(x, y) for x, y, *_ in self.transform_np_pts(self.points_to_np_points(pts))]
        if flatten:
            return list(itertools.chain.from_iterable(xys))
        first, *_ = pts
        return list(itertools.starmap(Point, xys)) if isinstance(first, BasePoint) else xys
'''), (T, 'import math\n', 'import itertools\nimport math\n')]),
dict(id='r4-colors-dataclass', edits=[(C, '''class Brush(object):
    """Brush describes how to fill an object"""
    def __init__(self, color: Color):
        self.color = color

    def __eq__(self, other):
        return type(self) is type(other) and self.color == other.color

''', '''@dataclasses.dataclass(repr=False)
class Brush(object):
    """Brush describes how to fill an object"""
    color: Color

'''), (C, '''        if isinstance(pen, Pen) or pen is None:
            self.pen = pen
        elif isinstance(pen, tuple) and len(pen) == 2:
            self.pen = Pen(*pen)        # (color, width)
        else:
            self.pen = Pen(pen)         # color
        if isinstance(brush, Brush) or brush is None:
            self.brush = brush
        else:
            self.brush = Brush(brush)  # color
''', '''        match pen:
            case Pen() | None:
                self.pen = pen
            case tuple((color, width)):
                self.pen = Pen(color, width)
            case color:
                self.pen = Pen(color)
        self.brush = brush if brush is None or isinstance(brush, Brush) else Brush(color=brush)
'''), (C, 'from .typing import *\n', 'import dataclasses\n\nfrom .typing import *\n')]),
dict(id='r4-pens-fields', edits=[(C, '''        default = PenBrush(Pen('black', 1), None)
        self.edge = edge or default
        self.filled = filled or default
        self.clear = clear or default
        self.edge_filled = edge_filled or default
        self.edge_clear = edge_clear or default
''', '''        default = PenBrush(Pen('black', 1), None)
        given = edge, filled, clear, edge_filled, edge_clear
        vars(self).update((kind, pens or default) for kind, pens in zip(self.keys(), given))
'''), (C, '''        return PensByShape(**dict((k, self[k].replace(width=width)) for k in self.keys()))
''', '''        return PensByShape(*(self[k].replace(width=width) for k in self.keys()))
'''), (C, '''            pen = PenBrush((color, 0.0), None)
            return PensByShape(
                edge=pen,
                filled=pen,
                clear=pen,
                edge_filled=pen,
                edge_clear=pen,
            )
''', '''            return PensByShape(**dict.fromkeys(PensByShape.keys(), PenBrush((color, 0.0), None)))
'''), (C, '''        if self.pen:
            if self.pen.width > 0:
                return self.pen.width
            else:
                return xform.transform_width(-self.pen.width)
''', '''        if not self.pen:
            return None
        width = self.pen.width
        return width if width > 0 else xform.transform_width(-width)
''')]),
dict(id='r4-utils-partial', edits=[(U, '''    t = Transform().rotate(angle)
    return [t.transform_pt(pt, as_pt) for pt in path]


def path_rotate_ccw''', '''    return _mapped(Transform().rotate(angle), path, as_pt)


def _mapped(xform: Transform, path: PointList, as_pt: bool) -> PointUnionList:
    return list(map(partial(xform.transform_pt, as_pt=as_pt), path))


def path_rotate_ccw'''), (U, '''    t = Transform().rotate_ccw(angle)
    return [t.transform_pt(pt, as_pt) for pt in path]
''', '''    return _mapped(Transform().rotate_ccw(angle), path, as_pt)
'''), (U, '''    dxy = Vector(*dxy.xy())
    if as_pt:
        return [p + dxy for p in path]
    else:
        return [(p + dxy).xy() for p in path]
''', '''    shift = Vector(*dxy.xy())
    moved = (p + shift for p in path)
    return list(moved) if as_pt else list(map(methodcaller('xy'), moved))
'''), (U, '''    steps = 360
    return [(r * cos(t) + c.x, r * sin(t) + c.y) for t in t_range(steps, 0, tau)]
''', '''    return list(_around(c, r, t_range(360, 0, tau)))


def _around(c, r, angles):
    """Generate the points at these angles"""
    for t in angles:
        yield r * cos(t) + c.x, r * sin(t) + c.y
'''), (U, '''    return [(r * cos(t) + c.x, r * sin(t) + c.y) for t in t_range(steps, radians(sa), radians(ea))]
''', '''    return [*_around(c, r, t_range(steps, *map(radians, (sa, ea))))]
'''), (U, 'from typing import Union\n', 'from functools import partial\nfrom operator import methodcaller\nfrom typing import Union\n')]),
dict(id='r4-drawing-swap', edits=[(D, '''        draw = self.draw
        self.alloc_shadow()
        shadow_draw = ImageDraw.Draw(self.shadow)
        try:
            self.draw = shadow_draw
            self.shadow_color = color
            model.draw(self)
        finally:
            self.draw = draw
            self.shadow_color = None

        self.shadow = make_shadow(self.shadow)
''', '''        self.alloc_shadow()
        with self._drawing_on(ImageDraw.Draw(self.shadow), color):
            model.draw(self)
        self.shadow = make_shadow(self.shadow)

    @contextlib.contextmanager
    def _drawing_on(self, other_draw, color):
        """Draw on another layer, every filling in this color"""
        self.draw, saved = other_draw, self.draw
        self.shadow_color = color
        try:
            yield self
        finally:
            self.draw, self.shadow_color = saved, None
'''), (D, '''        if self.shadow:
            background = Image.alpha_composite(self.background, self.shadow)
        else:
            background = self.background
        im = Image.alpha_composite(background, self.layer)
''', '''        layers = [self.background, self.shadow, self.layer] if self.shadow else [self.background, self.layer]
        im = functools.reduce(Image.alpha_composite, layers)
'''), (D, 'from PIL import Image, ImageDraw', 'import contextlib\nimport functools\n\nfrom PIL import Image, ImageDraw')]),
dict(id='r4-elem-eq', edits=[(M, '''        return type(self) is type(other) and self.name == other.name \\
            and self.penbrush == other.penbrush and self.closed == other.closed \\
            and self.xform == other.xform
''', '''        if type(self) is not type(other):
            return False
        basics = operator.attrgetter('name', 'penbrush', 'closed', 'xform')
        return basics(self) == basics(other)
'''), (M, '''        self.name = other.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.xform = other.xform.copy()

    @abstractmethod
    def transform''', '''        for attr in ('name', 'penbrush', 'closed'):
            setattr(self, attr, getattr(other, attr))
        self.xform = other.xform.copy()

    @abstractmethod
    def transform'''), (M, '''        return (
            super().__eq__(other) and
            self.hidden == other.hidden and
            self.elems == other.elems and
            self.points == other.points
        )
''', '''        if not super().__eq__(other):
            return False
        return (self.hidden, self.elems, self.points) == (other.hidden, other.elems, other.points)
'''), (M, 'import math\n', 'import math\nimport operator\n')]),
dict(id='r4-group-lookup-loop', edits=[(M, '''        head, sep, tail = tag.partition('.')
        if head not in self.elems:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
        item = self.elems[head]
        if tail:
            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail)
            else:
                raise ValueError('no sub-group found for %r' % tail)
        else:
            return item
''', '''        here = self
        while True:
            head, sep, tag = tag.partition('.')
            try:
                item = here.elems[head]
            except KeyError:
                raise KeyError('%s: expected %s' % (head, ', '.join(here.elems.keys()))) from None
            match item, tag:
                case _, '':
                    return item
                case Group(), _:
                    here = item
                case ElemWithHoles(), _:
                    return item.lookup(tag)
                case _:
                    raise ValueError('no sub-group found for %r' % tag)
'''), (M, '''                num = 0
                while (name_try := '%s#%d' % (name, num)) in self.elems:
                    num += 1
                name = name_try
''', '''                tries = map((name + '#%d').__mod__, itertools.count())
                name = next(itertools.dropwhile(self.elems.__contains__, tries))
'''), (M, 'import math\n', 'import itertools\nimport math\n')]),
dict(id='r4-walks', edits=[(M, '''        matrix = matrix or Transform()
        with matrix.push().compose(self.xform):
            for elem in self.elems.values():
                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)

''', '''        matrix = matrix or Transform()
        here = '.'.join(filter(None, [root, self.name])) if root else self.name
        with contextlib.ExitStack() as stack:
            stack.enter_context(matrix.push())
            matrix.compose(self.xform)
            for elem in self.elems.values():
                yield from elem.iter_elems(here if not root else root + '.' + self.name, matrix)

'''), (M, '''        paths = []
        with dc.matrix.push():
            if self.xform:
                dc.matrix.compose(self.xform)
            for name, elem in self.elems.items():
                paths.extend(elem.paths(dc))
        return paths
''', '''        with self.draw_space(dc):
            return list(itertools.chain.from_iterable(elem.paths(dc) for elem in self.elems.values()))
'''), (M, '''        bbox = BBox(None)
        for elem in self.elems.values():
            bbox = bbox + elem.bbox()
        return bbox
''', '''        return functools.reduce(operator.add, map(operator.methodcaller('bbox'), self.elems.values()), BBox(None))
'''), (M, '''        bb = self.control_points[0].bbox()
        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb
''', '''        first, *rest = self.control_points
        return sum((cp.bbox() for cp in rest), start=first.bbox())
'''), (M, 'import math\n', 'import contextlib\nimport functools\nimport itertools\nimport math\nimport operator\n')]),
dict(id='r4-offset-helper', edits=[(M, '''        for cl, cm, cr in iter_rotate(x_cps, 3, -1):
            a, b, c, d, e = cl.r, cm.l, cm.c, cm.r, cr.l
            ab = a-b
            cb = c-b        # also -cm.dl
            bo = self.offset_pt(ab, b, cb, offset)
            co = self.offset_pt(cm.dl, cm.c, cm.dr, offset)
            cd = c-d
            ed = e-d
            do = self.offset_pt(cd, d, ed, offset)
            cps.append(ControlPoint(co, bo-co, do-co, cm.kind))
''', '''        moved = functools.partial(self._offset_corner, offset=offset)
        for prior, this, following in zip([x_cps[-1], *x_cps[:-1]], x_cps, [*x_cps[1:], x_cps[0]]):
            left = moved(prior.r, this.l, this.c)
            right = moved(this.c, this.r, following.l)
            center = self.offset_pt(this.dl, this.c, this.dr, offset)
            cps.append(ControlPoint(center, dl=left - center, dr=right - center, kind=this.kind))
'''), (M, '''    def offset(self, offset):
        """Offset this curve by <offset>"""
''', '''    def _offset_corner(self, before, pt, after, offset):
        return self.offset_pt(before - pt, pt, after - pt, offset)

    def offset(self, offset):
        """Offset this curve by <offset>"""
'''), (M, '''            if abs(scale) > cls.OFFSET_PT_LIMIT:
                if cls.OFFSET_PT_DEBUG:
                    print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                # TODO-introduce an arc at this point for outside edge
            v_offset = v_offset * scale
''', '''            limit = cls.OFFSET_PT_LIMIT
            v_offset = v_offset * max(-limit, min(scale, limit))
'''), (M, 'import math\n', 'import functools\nimport math\n')]),
dict(id='r4-dump', edits=[(M, '''        items = list(kwargs.items())
        if isinstance(items[-1][1], type):
            key, val = items[-1]
            if val is list:
                final_arg = ['%s=[' % key]
            else:
                final_arg = ['%s=%s(' % (key, val.__name__)]
            items.pop()
        else:
            final_arg = []
        args = ['%s=%s' % (key, repr(val)) for key, val in items] + final_arg
        args = ', '.join(args)
        if final_arg:
            dc.append(basic + args)
        else:
            dc.append(basic + args + ')')
        return dc
''', '''        def formatted():
            for key, val in kwargs.items():
                match val:
                    case type() if val is list:
                        yield f'{key}=['
                    case type():
                        yield f'{key}={val.__name__}('
                    case _:
                        yield f'{key}={val!r}'

        *_, last = kwargs.values()
        dc.append(f"{basic}{', '.join(formatted())}{'' if isinstance(last, type) else ')'}")
        return dc
'''), (M, '''        if self.use_vars:
            value = repr(value)
            if value not in self.vars:
                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
            return self.vars[value]
        else:
            return repr(value)
''', '''        text = repr(value)
        if not self.use_vars:
            return text
        try:
            return self.vars[text]
        except KeyError:
            number = self.prefixes.setdefault(prefix, 0) + 1
            self.prefixes[prefix] = number
        return self.vars.setdefault(text, f'{prefix}_{number}')
''')]),
dict(id='r4-draw', edits=[(M, '''            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:
                fill_color = draw.shadow_color
            else:
                fill_color = path.penbrush.fill_color
            # fill_color = self.fill
            if do_fill:
                draw.draw.polygon(p, fill=fill_color)
                if draw.showall:
                    print(draw.draw, dir(draw.draw))
                    draw.show()
                if do_outline:
                    draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
            elif do_outline:
                draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
''', '''            fill_color = self._ink(path.penbrush.fill_color, draw.shadow_color)
            line = functools.partial(draw.draw.line, fill=path.penbrush.stroke_color, width=width, joint='curve')
            match do_fill, do_outline:
                case True, _:
                    draw.draw.polygon(p, fill=fill_color)
                    if draw.showall:
                        print(draw.draw, dir(draw.draw))
                        draw.show()
                    if do_outline:
                        line([*p.tolist(), p[0]])
                case False, True:
                    line(p)
'''), (M, '''    @staticmethod
    def draw_path_debug(''', '''    @staticmethod
    def _ink(color, shadow_color):
        """Color to fill with: shadows are of one color, but what is transparent casts none"""
        return shadow_color if shadow_color and color != TRANSPARENT else color

    @staticmethod
    def draw_path_debug('''), (M, 'import math\n', 'import functools\nimport math\n')]),
dict(id='r4-holes-paths', edits=[(M, '''            if fill_brush.brush:
                fill_path = Path(fill_brush, edges[0].closed, edges[0].points)
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=True)
                    edges.extend(paths)
                return [fill_path] + edges
            else:
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                    edges.extend(paths)
                return edges
''', '''            holes = [path for elem in self.inside for path in elem.paths(dc)]
            for hole in holes:
                hole.penbrush = edge_brush
            edges += holes
            if not fill_brush.filled:
                return edges
            filling = Path(fill_brush, edges[0].closed, edges[0].points)
            for hole in holes:
                filling.extend(hole.points, closed=True)
            return [filling, *edges]
'''), (M, '''        head, sep, tail = tag.partition('.')
        if head == 'outside':
            if tail == self.outside.name:
                return self.outside
        elif head == 'inside':
            for elem in self.inside:
                if tail == elem.name:
                    return elem
        raise KeyError(''', '''        match tag.partition('.'):
            case 'outside', _, self.outside.name:
                return self.outside
            case 'inside', _, name if found := [elem for elem in self.inside if elem.name == name]:
                return found[0]
        raise KeyError(''')]),
]
