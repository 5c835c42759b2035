G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'
REFS = [
dict(id='bbox-helper', edits=[(G, '''    @property
    def p1(self):
        """Same as self.pll.  ValueError if .is_none"""
        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point(self.xl, self.yl)
''', '''    def _corner(self, sx, sy):
        """Corner by attribute names.  ValueError if .is_none"""
        coords = [getattr(self, attr) for attr in (sx, sy)]
        if any(v is None for v in coords):
            raise ValueError("BBox is Empty")
        return Point(*coords)

    @property
    def p1(self):
        """Same as self.pll.  ValueError if .is_none"""
        return self._corner('xl', 'yl')
'''), (G, '''        """Upper right==x-high, y-high.  ValueError if .is_none"""
        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point(self.xh, self.yh)
''', '''        """Upper right==x-high, y-high.  ValueError if .is_none"""
        return self._corner('xh', 'yh')
'''), (G, '''        return BBox(
            min(self.xl, other.xl), min(self.yl, other.yl),
            max(self.xh, other.xh), max(self.yh, other.yh)
        )''', '''        lows = (min(a, b) for a, b in zip((self.xl, self.yl), (other.xl, other.yl)))
        highs = (max(a, b) for a, b in zip((self.xh, self.yh), (other.xh, other.yh)))
        return BBox((*lows, *highs))'''),
  (G, '''        return self.xl <= other.xl and other.xh <= self.xh and self.yl <= other.yl and other.yh <= self.yh''',
  '''        return all((self.xl <= other.xl, other.xh <= self.xh, self.yl <= other.yl, other.yh <= self.yh))'''),
  (G, '''            self.xl = min(self.xl, x)
            self.xh = max(self.xh, x)
            self.yl = min(self.yl, y)
            self.yh = max(self.yh, y)
''', '''            for axis, v in (('x', x), ('y', y)):
                low, high = axis + 'l', axis + 'h'
                if v < getattr(self, low):
                    setattr(self, low, v)
                elif v > getattr(self, high):
                    setattr(self, high, v)
'''),
  (G, '''        if self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl:
            return False
        return True
''', '''        return not (self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl)
''')]),
dict(id='vector-lambda', edits=[(G, '''    def dot(self, other: 'Vector') -> float:
        """Dot product of this Vector with another Vector"""
        sx, sy = self.xy()
        ox, oy = other.xy()
        return sx*ox + sy*oy
''', '''    def dot(self, other: 'Vector') -> float:
        """Dot product of this Vector with another Vector"""
        return sum(map(operator.mul, self.xy(), other.xy()))
'''), (G, '''    def cross(self, other: 'Vector') -> float:
        """2-d cross product (scalar value)"""
        sx, sy = self.xy()
        ox, oy = other.xy()
        return sx*oy - sy*ox
''', '''    def cross(self, other: 'Vector') -> float:
        """2-d cross product (scalar value)"""
        return -self.normal().dot(other)
'''), (G, '''        length = self.length()
        if length == 0:
            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        x, y = self.xy()
        return Vector(x / length, y / length)
''', '''        if not (length := self.length()):
            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        return self / length
'''), (G, '''        return math.hypot(*self.xy())
''', '''        x, y = self.xy()
        return math.sqrt(x ** 2 + y ** 2)
'''), (G, "import math\n", "import math\nimport operator\n"),
  (G, '''    def __truediv__(self, other) -> 'Vector':
        x, y = self.xy()
        return Vector(x / other, y / other)

    def __neg__(self) -> 'Vector':
        x, y = self.xy()
        return Vector(-x, -y)
''', '''    def __truediv__(self, other) -> 'Vector':
        return Vector(*(v / other for v in self.xy()))

    def __neg__(self) -> 'Vector':
        return Vector(*[operator.neg(v) for v in self.xy()])
''')]),
dict(id='point-isinstance', edits=[(G, '''        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
''', '''        dx, dy = (a - b for a, b in zip(self.xy(), other.xy()))
        if isinstance(other, Vector):
            return Point(dx, dy)
        return Vector(dx, dy)
'''), (G, '''        return (
            super().__eq__(other) and
            self.dx == other.dx and self.dy == other.dy and
            self.base == other.base
        )''', '''        if not super().__eq__(other):
            return False
        if (self.dx, self.dy) != (other.dx, other.dy):
            return False
        return self.base == other.base'''),
  (G, '''        base_x, base_y = self.base.base.xy()
        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y''',
  '''        rel = self.base
        offset = Vector(rel.dx, rel.dy) * self.scale
        return (rel.base + offset).xy()'''),
  (G, '''        return super().__eq__(other) and self._x == other._x and self._y == other._y

    def __round__(self, n=None):''', '''        if super().__eq__(other):
            return self._x == other._x and self._y == other._y
        return False

    def __round__(self, n=None):'''),
  (G, '''    return sum(a.x*b.y - a.y*b.x for a, b in iter_rotate(points))/2''', '''    total = 0
    for a, b in iter_rotate(points):
        total += a.v.cross(b.v)
    return 0.5 * total''')]),
dict(id='transform-eye', edits=[(T, '''        return np.array([[1, 0, dx], [0, 1, dy], [0, 0, 1]])''', '''        mat = np.identity(3)
        mat[0, 2] = dx
        mat[1, 2] = dy
        return mat'''), (T, '''        return np.array([[sx, 0, 0], [0, sy, 0], [0, 0, 1]])''', '''        return np.diag([sx, sy, 1])'''),
  (T, '''        self.ndmat = np.dot(ndmat, self.ndmat)''', '''        self.ndmat = ndmat @ self.ndmat'''),
  (T, '''        self.ndmat = np.dot(self.ndmat, ndmat)''', '''        self.ndmat = np.matmul(self.ndmat, ndmat)'''),
  (T, '''        sin_theta = math.sin(radians)
        cos_theta = math.cos(radians)
        return np.array([[cos_theta, -sin_theta, 0], [sin_theta, cos_theta, 0], [0, 0, 1]])''', '''        return Transform.rotate_mat(-radians)'''),
  (T, '''        self._mat.pre_dot_eq(self.translate_mat(dx, dy))
        self._inverse = None
        return self
''', '''        return self._apply_outer(self.translate_mat(dx, dy))

    def _apply_outer(self, ndmat):
        """Put a raw matrix in front of the current one"""
        self._mat.pre_dot_eq(ndmat)
        self._inverse = None
        return self
'''), (T, '''        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
        self._inverse = None
        return self
''', '''        return self._apply_outer(self.scale_mat(sx, sy))
'''), (T, '''        return tuple(v for row in self._mat.ndmat[:2] for v in row)''', '''        return tuple(self._mat.ndmat[:2].flatten())'''),
  (T, '''        return [(x, y) for x, y, z in pts]''', '''        return list(zip(pts[:, 0], pts[:, 1]))''')]),
dict(id='transform-chain', edits=[(T, '''        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre_dot_eq(xform._mat.ndmat)
        self._inverse = None
        return self
''', '''        cx, cy = center.xy()
        return self.translate(-cx, -cy).rotate(angle).translate(cx, cy)
'''), (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.post_dot_eq(transmat.ndmat)
        self._inverse = None
        return self

    def compose_outer''', '''        self._mat.post_dot_eq(self._ndmat_of(transmat))
        self._inverse = None
        return self

    @staticmethod
    def _ndmat_of(transmat):
        if isinstance(transmat, Transform):
            transmat = transmat._mat
        return transmat.ndmat

    def compose_outer'''), (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)''', '''        self._mat.pre_dot_eq(self._ndmat_of(transmat))'''),
  (T, '''        if self._inverse is None:
            self._inverse = np.linalg.inv(self._mat.ndmat)
        return self._inverse
''', '''        cached = self._inverse
        if cached is None:
            cached = self._inverse = self._mat.inverse().ndmat
        return cached
'''), (T, '''        pp = self.transform_np_pts(self.xy_to_np_point(x, y))[0]
        return pp[0], pp[1]
''', '''        (px, py, *_), *_ = self.transform_np_pts(self.xy_to_np_point(x, y))
        return px, py
'''), (T, '''        if flatten:
            return [v for x, y, *_ in np_pts for v in (x, y)]
        elif isinstance(pts[0], BasePoint):
            return [Point(x, y) for x, y, *_ in np_pts]
        else:
            return [(x, y) for x, y, *_ in np_pts]
''', '''        pairs = [tuple(row[:2]) for row in np_pts]
        if flatten:
            return list(itertools.chain.from_iterable(pairs))
        make = (lambda x, y: Point(x, y)) if isinstance(pts[0], BasePoint) else (lambda x, y: (x, y))
        return [make(*pair) for pair in pairs]
'''), (T, "import math\n", "import itertools\nimport math\n"),
  (T, '''        sx, sy = self.scale_vals()
        return width * (abs(sx) + abs(sy)) / 2
''', '''        return width * sum(abs(s) for s in self.scale_vals()) / 2
'''), (T, '''        self.stack.append(self._mat.copy())
        return self
''', '''        saved = self._mat.copy()
        self.stack += [saved]
        return self
'''), (T, '''        if not self.stack:
            raise EmptyStackError()
        self._mat = self.stack.pop()
        self._inverse = None
''', '''        try:
            self._mat = self.stack.pop()
        except IndexError:
            raise EmptyStackError() from None
        self._inverse = None
''')]),
dict(id='elem-state', edits=[(M, '''        self.name = other.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.xform = other.xform.copy()

    @abstractmethod
    def transform''', '''        for attr in self._plain_attrs:
            setattr(self, attr, getattr(other, attr))
        self.xform = other.xform.copy()

    _plain_attrs = ('name', 'penbrush', 'closed')

    @abstractmethod
    def transform'''), (M, '''        bb = self.bbox_int()
        b1 = BBox(self.xform.transform_pt(bb.pll), self.xform.transform_pt(bb.phh))
        b2 = BBox(self.xform.transform_pt(bb.plh), self.xform.transform_pt(bb.phl))
        return b1 + b2
''', '''        bb = self.bbox_int()
        out = BBox(None)
        for corner in (bb.pll, bb.plh, bb.phl, bb.phh):
            out.grow(self.xform.transform_pt(corner))
        return out
'''), (M, '''        return type(self) is type(other) and self.name == other.name \\
            and self.penbrush == other.penbrush and self.closed == other.closed \\
            and self.xform == other.xform
''', '''        if type(self) is not type(other):
            return False
        mine = [self.name, self.penbrush, self.closed, self.xform]
        others = [other.name, other.penbrush, other.closed, other.xform]
        return mine == others
'''), (M, '''        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp, ocp in zip(self.control_points, other.control_points):
                cp.restore(ocp)
        else:
            msg = 'ElemCurve.restore: self=%d other=%d' % (len(self.control_points), len(other.control_points))
            raise GeomInternalError(msg)
''', '''        n, m = map(len, (self.control_points, other.control_points))
        if n != m:
            raise GeomInternalError(f'ElemCurve.restore: self={n} other={m}')
        super().restore(other)
        for i in range(n):
            self.control_points[i].restore(other.control_points[i])
'''), (M, '''        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            cps = [cp.transform(matrix) for cp in self.control_points]
            return ElemCurve(self.name, self.penbrush, cps, self.closed, None)
''', '''        matrix.push()
        try:
            matrix.compose(self.xform)
            cps = self.control_points_transformed(matrix)
        finally:
            matrix.pop()
        return ElemCurve(self.name, self.penbrush, cps, closed=self.closed)
''')]),
dict(id='curve-paths', edits=[(M, '''            if self.closed:
                extra = control_points  # Loop back to start
            else:
                extra = []  # Ignore start
            pts = []  # list(self.control_points[0].c.xy())
            skip = 0
            for p, q in zip(control_points, control_points[1:] + extra):
                bez_pts = bez([p.c, p.r, q.l, q.c], steps=segments)
                pts.extend(bez_pts[skip:])
                skip = 2  # Skip first point going forward, as it is same as last point
''', '''            following = control_points[1:]
            if self.closed:
                following.append(control_points[0])     # Loop back to start
            pts = []
            for i, (p, q) in enumerate(zip(control_points, following)):
                bez_pts = bez([p.c, p.r, q.l, q.c], steps=segments)
                # Skip first point going forward, as it is same as last point
                pts += bez_pts if i == 0 else bez_pts[2:]
'''), (M, '''        dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
        if not self.closed and len(cps) > 1:
            dists = dists[:-1]      # Open curves have no segment from last to first
        dists = sorted(dists)
        left = (dists[-1][1]) % len(cps)
        right = (left + 1) % len(cps)
''', '''        # Open curves have no segment from last to first
        n_segments = len(cps) if self.closed or len(cps) == 1 else len(cps) - 1

        def seg_length(idx):
            return (cps[idx].c - cps[(idx + 1) % len(cps)].c).length(), idx

        left = max(range(n_segments), key=seg_length)
        right = (left + 1) % len(cps)
'''), (M, '''        bb = self.control_points[0].bbox()
        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb
''', '''        boxes = [cp.bbox() for cp in self.control_points]
        return sum(boxes[1:], boxes[0])
'''), (B, '''    path = [(ax, ay)]
    # steps = 10
    # f(t) = (1-t)^3*p1 + 3*t*(1-t)^2 + 3*t^2*(1-t)*p3 + t^3*p4x
    for ti in range(1, steps):
        t = ti / steps
        t2 = t * t
        t3 = t * t2
        s = 1 - t
        s2 = s * s
        s3 = s * s2
        s2t = s2 * t
        st2 = s * t2
        x = s3 * ax + 3 * s2t * bx + 3 * st2 * cx + t3 * dx
        y = s3 * ay + 3 * s2t * by + 3 * st2 * cy + t3 * dy
        path.append((x, y))
    path.append((dx, dy))
''', '''    def bernstein(t):
        s = 1 - t
        return s * (s * s), 3 * (s * s * t), 3 * (s * (t * t)), t * (t * t)

    def point_at(t):
        weights = bernstein(t)
        return (sum(w * v for w, v in zip(weights, (ax, bx, cx, dx))),
                sum(w * v for w, v in zip(weights, (ay, by, cy, dy))))

    path = [(ax, ay), *(point_at(ti / steps) for ti in range(1, steps)), (dx, dy)]
''')]),
dict(id='group-iter', edits=[(M, '''        paths = []
        with dc.matrix.push():
            if self.xform:
                dc.matrix.compose(self.xform)
            for name, elem in self.elems.items():
                paths.extend(elem.paths(dc))
        return paths
''', '''        with self.draw_space(dc):
            return [path for elem in self.elems.values() for path in elem.paths(dc)]
'''), (M, '''        if not self.elems:
            raise GeomInternalError('Group.bbox_int on empty group')
        bbox = BBox(None)
        for elem in self.elems.values():
            bbox = bbox + elem.bbox()
        return bbox
''', '''        if len(self.elems) == 0:
            raise GeomInternalError('Group.bbox_int on empty group')
        return functools.reduce(lambda bb, elem: bb + elem.bbox(), self.elems.values(), BBox(None))
'''), (M, "import math\n", "import functools\nimport math\n"),
  (M, '''                num = 0
                while (name_try := '%s#%d' % (name, num)) in self.elems:
                    num += 1
                name = name_try
''', '''                tries = ('%s#%d' % (name, num) for num in range(len(self.elems) + 1))
                name = next(n for n in tries if n not in self.elems)
'''), (M, '''            for elem in self.elems.values():
                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
''', '''            base = '.'.join(part for part in (root, self.name) if part) if root else self.name
            for elem in self.elems.values():
                for item in elem.iter_elems(base, matrix):
                    yield item
'''), (M, '''                self.elems = dict(
                    (replacement.name, replacement) if n == name else (n, other) for n, other in self.elems.items())
                count += 1
''', '''                members = {}
                for n, other in self.elems.items():
                    if n == name:
                        members[replacement.name] = replacement
                    else:
                        members[n] = other
                self.elems = members
                count += 1
'''), (M, '''        head, sep, tail = tag.partition('.')
        if head not in self.elems:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
        item = self.elems[head]
        if tail:
            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail)
            else:
                raise ValueError('no sub-group found for %r' % tail)
        else:
            return item
''', '''        head, *rest = tag.split('.', 1)
        try:
            item = self.elems[head]
        except KeyError:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems))) from None
        if not rest or not rest[0]:
            return item
        if not hasattr(item, 'lookup'):
            raise ValueError('no sub-group found for %r' % rest[0])
        return item.lookup(rest[0])
''')]),
dict(id='holes-split', edits=[(M, '''            edges = self.outside.paths(dc)
            assert len(edges) == 1
            edge_brush = PenBrush(self.penbrush.pen, None)
            edges[0].penbrush = edge_brush
            fill_brush = PenBrush(None, self.penbrush.brush)  # Just the fill component
            if fill_brush.brush:
                fill_path = Path(fill_brush, edges[0].closed, edges[0].points)
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=True)
                    edges.extend(paths)
                return [fill_path] + edges
            else:
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                    edges.extend(paths)
                return edges
''', '''            outer, = self.outside.paths(dc)
            inner = [path for elem in self.inside for path in elem.paths(dc)]
            return self._fill_paths(outer, inner) + self._edge_paths(outer, inner)

    def _edge_paths(self, outer, inner):
        """All edges, with just the stroke component"""
        edges = [outer] + inner
        for path in edges:
            path.penbrush = PenBrush(self.penbrush.pen, None)
        return edges

    def _fill_paths(self, outer, inner):
        """The filling (if any), with the holes cut out"""
        brush = self.penbrush.brush
        if not brush:
            return []
        filling = Path(PenBrush(None, brush), outer.closed, outer.points)
        for path in inner:
            filling.extend(path.points, closed=True)
        return [filling]
'''), (M, '''        if head == 'outside':
            if tail == self.outside.name:
                return self.outside
        elif head == 'inside':
            for elem in self.inside:
                if tail == elem.name:
                    return elem
''', '''        parts = {'outside': [self.outside], 'inside': self.inside}.get(head, [])
        found = [elem for elem in parts if elem.name == tail]
        if found:
            return found[0]
''')]),
dict(id='draw-split', edits=[(M, '''        for path in self.paths(draw):
            p = path.points
            do_fill = path.penbrush.filled
            do_outline = path.penbrush.stroked
            if draw.prod and do_outline:
                # TODO-draw_space?
                width = max(1, round(path.penbrush.stroke_width(draw.matrix)))
            else:
                width = 1
''', '''        for path in self.paths(draw):
            self.draw_one(draw, path)

    @staticmethod
    def outline_width(draw, path):
        if draw.prod and path.penbrush.stroked:
            # TODO-draw_space?
            return max(round(path.penbrush.stroke_width(draw.matrix)), 1)
        return 1

    def draw_one(self, draw, path):
            p = path.points
            do_fill, do_outline = path.penbrush.filled, path.penbrush.stroked
            width = self.outline_width(draw, path)
'''), (M, '''                    draw.draw.line(cp.c.xy() + cp.l.xy(), fill='grey')
                    draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                    draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                    draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
''', '''                    handles = cp.l, cp.r
                    for handle in handles:
                        draw.draw.line(cp.c.xy() + handle.xy(), fill='grey')
                    for handle in handles:
                        box = (*(handle - rad), *(handle + rad))
                        draw.draw.ellipse(box, outline='red', fill='grey')
''')]),
dict(id='colors-dict', edits=[(C, '''        self.edge = edge or default
        self.filled = filled or default
        self.clear = clear or default
        self.edge_filled = edge_filled or default
        self.edge_clear = edge_clear or default

    @staticmethod
    def keys():
        return 'edge', 'filled', 'clear', 'edge_filled', 'edge_clear'

    def __str__(self):
        return 'PensByShape(''', '''        given = dict(edge=edge, filled=filled, clear=clear, edge_filled=edge_filled, edge_clear=edge_clear)
        self.__dict__.update((kind, pen or default) for kind, pen in given.items())

    @staticmethod
    def keys():
        return 'edge', 'filled', 'clear', 'edge_filled', 'edge_clear'

    def __str__(self):
        return 'PensByShape('''), (C, '''        return PensByShape(**dict((k, self[k].replace(width=width)) for k in self.keys()))''',
  '''        replaced = {}
        for kind in self.keys():
            replaced[kind] = self[kind].replace(width=width)
        return PensByShape(**replaced)'''), (C, '''        if isinstance(pen, Pen) or pen is None:
            self.pen = pen
        elif isinstance(pen, tuple) and len(pen) == 2:
            self.pen = Pen(*pen)        # (color, width)
        else:
            self.pen = Pen(pen)         # color
        if isinstance(brush, Brush) or brush is None:
            self.brush = brush
        else:
            self.brush = Brush(brush)  # color
''', '''        self.pen = self._as_pen(pen)
        self.brush = brush if brush is None or isinstance(brush, Brush) else Brush(brush)

    @staticmethod
    def _as_pen(pen):
        if pen is None or isinstance(pen, Pen):
            return pen
        color, width = pen if isinstance(pen, tuple) and len(pen) == 2 else (pen, 0.0)
        return Pen(color, width)
'''), (C, '''        if self.pen:
            if self.pen.width > 0:
                return self.pen.width
            else:
                return xform.transform_width(-self.pen.width)
''', '''        if not self.pen:
            return None
        width = self.pen.width
        return width if width > 0 else xform.transform_width(abs(width))
''')]),
dict(id='bez-split-np', edits=[(B, '''    def mid(p: BasePoint, q: BasePoint):
        return p + t*(q-p)

    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
    ab = mid(a, b)
    bc = mid(b, c)
    cd = mid(c, d)
    abc = mid(ab, bc)
    bcd = mid(bc, cd)
    abcd = mid(abc, bcd)

    left = ControlPoint(a, cp1.dl, ab-a)
    middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
    right = ControlPoint(d, cd-d, cp2.dr)
''', '''    levels = [[cp1.c, cp1.r, cp2.l, cp2.c]]
    while len(levels[-1]) > 1:
        pts = levels[-1]
        levels.append([p + (q - p) * t for p, q in zip(pts, pts[1:])])
    first, last = levels[0][0], levels[0][-1]
    split = levels[3][0]

    left = ControlPoint(first, cp1.dl, levels[1][0] - first)
    middle = ControlPoint(split, levels[2][0] - split, levels[2][1] - split)
    right = ControlPoint(last, levels[1][2] - last, cp2.dr)
'''), (B, '''        t_c = matrix.transform_pt(self.c)
        t_l = matrix.transform_pt(self.l)
        t_r = matrix.transform_pt(self.r)
''', '''        t_c, t_l, t_r = [matrix.transform_pt(pt) for pt in (self.c, self.l, self.r)]
'''), (B, '''        bb = BBox(self.l, self.r)
        bb.grow(self.c)
        return bb
''', '''        return BBox(self.l, self.r) + BBox(self.c, self.c)
'''), (B, '''        if pts:
            pts.extend(bez_pts[2:])  # Skip first point, as it is already there
        else:
            pts.extend(bez_pts)
''', '''        first = 2 if pts else 0     # Skip first point, if it is already there
        for value in bez_pts[first:]:
            pts.append(value)
''')]),
dict(id='p1p2-points', edits=[(M, '''        p1 = self.p1
        p2 = self.p2
        p1x, p1y = p1.xy()
        p2x, p2y = p2.xy()
        return [p1, Point(p1x, p2y), p2, Point(p2x, p1y)]
''', '''        return [self.p1, Point(self.p1.x, self.p2.y), self.p2, Point(self.p2.x, self.p1.y)]
'''), (M, '''        with matrix.push().compose(self.xform) as xform:
            xlate, rotate = xform.simplify()
            points = [rotate.untransform_pt(xform.transform_pt(pt)) for pt in points]
            return rotate, points
''', '''        xform = matrix.copy().compose(self.xform)
        _, rotate = xform.simplify()
        return rotate, [Point(*rotate.untransform(*xform.transform(*pt))) for pt in points]
'''), (M, '''        p1 = self.p1.copy()
        p2 = self.p2.copy()
        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
''', '''        kwargs = dict(p1=self.p1.copy(), p2=self.p2.copy(), closed=self.closed, xform=self.xform.copy())
        return type(self)(self.name, self.penbrush, **kwargs)
'''), (M, '''    for a, b, c in iter_rotate(pts, 3, -1):
        ab = a-b''', '''    for i, b in enumerate(pts):
        a, c = pts[i - 1], pts[(i + 1) % 4]
        ab = a-b''')]),
dict(id='dump-fstring', edits=[(M, '''        basic = '%s(%r, %s, closed=%r, ' % (
            type(self).__name__, self.name, penbrush, self.closed)
        if self.xform != Transform():
            xform = dc.set_var(self.xform, 'xform')
            basic += 'xform=%s, ' % xform
''', '''        parts = [f'{type(self).__name__}({self.name!r}, {penbrush}, closed={self.closed!r}, ']
        if not self.xform == Transform():
            parts.append(f"xform={dc.set_var(self.xform, 'xform')}, ")
        basic = ''.join(parts)
'''), (M, '''            if value not in self.vars:
                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
            return self.vars[value]
''', '''            try:
                return self.vars[value]
            except KeyError:
                num = self.prefixes.setdefault(prefix, 0) + 1
                self.prefixes[prefix] = num
                return self.vars.setdefault(value, f'{prefix}_{num}')
'''), (G, '''        return '%s(%s, %s%s%s)' % (self.__class__.__name__, x, y, extra, self._namestr())''',
  '''        return '{}({}, {}{}{})'.format(type(self).__name__, x, y, extra, self._namestr())''')]),
dict(id='utils-arc', edits=[(U, '''    if direction == 'ccw':
        sa = sa % 360
        ea = ea % 360
        if ea < sa:
            ea += 360
    elif direction == 'cw':
        sa = sa % 360
        ea = ea % 360
        if sa < ea:
            sa += 360
''', '''    if direction in ('ccw', 'cw'):
        sa, ea = (angle % 360 for angle in (sa, ea))
        if direction == 'ccw' and ea < sa:
            ea += 360
        if direction == 'cw' and sa < ea:
            sa += 360
'''), (U, '''    return [(r * cos(t) + c.x, r * sin(t) + c.y) for t in t_range(steps, radians(sa), radians(ea))]
''', '''    cx, cy = c.xy()
    pts = []
    for t in t_range(steps, radians(sa), radians(ea)):
        pts.append((cx + r * cos(t), cy + r * sin(t)))
    return pts
'''), (U, '''    vx = Vector(r, 0)
    vy = Vector(0, r)
    return [p.xy() for p in [c-vx, c+vx, c, c-vy, c+vy]]
''', '''    x, y = c.xy()
    return [(x - r, y), (x + r, y), (x, y), (x, y - r), (x, y + r)]
'''), (U, '''    t = Transform().rotate(angle)
    return [t.transform_pt(pt, as_pt) for pt in path]


def path_rotate_ccw''', '''    return _path_map(Transform().rotate(angle), path, as_pt)


def _path_map(t, path, as_pt):
    return [t.transform_pt(pt, as_pt=as_pt) for pt in path]


def path_rotate_ccw''')]),
]
