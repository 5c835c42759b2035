G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'; TS = 'x7/geom/testing.py'
REFS = [
dict(id='r5-line-params', edits=[(G, '''        self_normal = self.direction.normal()
        t_other = self_normal.dot(self.origin-other.origin)/self_normal.dot(other.direction)
        if t_other < 0 or t_other > 1:
            return None
        other_normal = other.direction.normal()
        t_self = other_normal.dot(other.origin-self.origin)/other_normal.dot(self.direction)
        if t_self < 0 or t_self > 1:
            return None
        debug = True
        if debug:
            p_other = other.origin+other.direction*t_other
            p_self = self.origin+self.direction*t_self
            # print('self: %s@%s  other: %s@%s  length: %s' % (
            #       p_self, t_self, p_other, t_other, (p_self-p_other).length()))
            assert (p_self-p_other).length() < 1e-7
        return other.origin + other.direction*t_other, t_self, t_other''', '''        t_other = self._crossing(other)
        t_self = other._crossing(self)
        if not (0 <= t_other <= 1 and 0 <= t_self <= 1):
            return None
        p_other = other.at(t_other)
        assert p_other.close(self.at(t_self), 1e-7)
        return p_other, t_self, t_other

    def at(self, t) -> BasePoint:
        """The point at t: 0 for p1, 1 for p2"""
        return self.origin + self.direction*t

    def _crossing(self, other: 'Line') -> float:
        """Where along other does this line cross it?"""
        normal = self.direction.normal()
        return normal.dot(self.origin-other.origin) / normal.dot(other.direction)'''),
 (G, '''        if self.direction.cross(other.direction) == 0:
            # Parallel
            # TODO-could be same line
            raise ParallelLineError('parallel lines')
        normal = self.direction.normal()
        t_other = normal.dot(self.origin-other.origin) / normal.dot(other.direction)
        return other.origin + other.direction*t_other''', '''        if self.parallel(other):
            # TODO-could be same line
            raise ParallelLineError('parallel lines')
        return other.at(self._crossing(other))'''),
 (G, '''        return self.origin + self.direction * 0.5''', '''        return self.at(0.5)''')]),
dict(id='r5-bbox-touch', edits=[(G, '''        return ((other.xh == self.xl or other.xl == self.xh) and self.yl < other.yh and other.yl < self.yh) or \\
               ((other.yh == self.yl or other.yl == self.yh) and self.xl < other.xh and other.xl < self.xh)

    def touches(''', '''        return self._touching(other, operator.lt)

    def _touching(self, other, before):
        meets_x = self.xl in (other.xh,) or self.xh in (other.xl,)
        meets_y = self.yl in (other.yh,) or self.yh in (other.yl,)
        spans_x = before(self.xl, other.xh) and before(other.xl, self.xh)
        spans_y = before(self.yl, other.yh) and before(other.yl, self.yh)
        return meets_x and spans_y or meets_y and spans_x

    def touches('''), (G, '''        return ((other.xh == self.xl or other.xl == self.xh) and self.yl <= other.yh and other.yl <= self.yh) or \\
               ((other.yh == self.yl or other.yl == self.yh) and self.xl <= other.xh and other.xl <= self.xh)''', '''        return self._touching(other, operator.le)'''),
 (G, '''        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:
            return BBox(None)
        return BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))''', '''        apart = any((self.xl > other.xh, self.xh < other.xl, self.yl > other.yh, self.yh < other.yl))
        if apart:
            return BBox(None)
        low = [max(pair) for pair in zip(self[:2] if False else (self.xl, self.yl), (other.xl, other.yl))]
        high = [min(pair) for pair in zip((self.xh, self.yh), (other.xh, other.yh))]
        return BBox(*low, *high)'''),
 (G, 'import math\nimport typing\n', 'import math\nimport operator\nimport typing\n')]),
dict(id='r5-bbox-corner', edits=[(G, '''        """Lower left==x-low, y-low.  ValueError if .is_none"""
        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point(self.xl, self.yl)''', '''        """Lower left==x-low, y-low.  ValueError if .is_none"""
        return self._corner('xl', 'yl')

    def _corner(self, x_name, y_name):
        if self.is_none:
            raise ValueError("BBox is Empty")
        return Point(getattr(self, x_name), getattr(self, y_name))'''),
 (G, '''        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point(self.xl, self.yh)''', '''        return self._corner('xl', 'yh')'''),
 (G, '''        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point(self.xh, self.yl)''', '''        return self._corner('xh', 'yl')'''),
 (G, '''        """Center.  ValueError if .is_none"""
        if self.xl is None:
            raise ValueError("BBox is Empty")
        return Point((self.xl+self.xh)/2, (self.yl+self.yh)/2)''', '''        """Center.  ValueError if .is_none"""
        return self.pll.mid(self.phh)'''),
 (G, '''        return (self.xh-self.xl) * (self.yh-self.yl)''', '''        width, height = self.size()
        return width * height'''),
 (G, '''        x, y = point.xy()
        if self.xl is None:
            self.xl = self.xh = x
            self.yl = self.yh = y
        else:
            self.xl = min(self.xl, x)
            self.xh = max(self.xh, x)
            self.yl = min(self.yl, y)
            self.yh = max(self.yh, y)''', '''        grown = self + BBox(point, point)
        for idx, value in enumerate(grown):
            self[idx] = value''')]),
dict(id='r5-vector-map', edits=[(G, '''    def __mul__(self, other) -> 'Vector':
        x, y = self.xy()
        return Vector(x * other, y * other)

    def __rmul__(self, other) -> 'Vector':
        x, y = self.xy()
        return Vector(x * other, y * other)

    def __truediv__(self, other) -> 'Vector':
        x, y = self.xy()
        return Vector(x / other, y / other)

    def __neg__(self) -> 'Vector':
        x, y = self.xy()
        return Vector(-x, -y)
''', '''    def _map(self, func) -> 'Vector':
        return Vector(*map(func, self.xy()))

    def __mul__(self, other) -> 'Vector':
        return self._map(lambda v: v * other)

    __rmul__ = __mul__

    def __truediv__(self, other) -> 'Vector':
        return self._map(lambda v: v / other)

    def __neg__(self) -> 'Vector':
        return self._map(operator.neg)
'''), (G, '''        if length == 0:
            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        x, y = self.xy()
        return Vector(x / length, y / length)''', '''        if not length:
            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        return self / length'''),
 (G, '''        sx, sy = self.xy()
        ox, oy = other.xy()
        return sx*ox + sy*oy''', '''        return sum(a*b for a, b in zip(self, other))'''),
 (G, '''        sx, sy = self.xy()
        ox, oy = other.xy()
        return sx*oy - sy*ox''', '''        return other.normal().dot(self)'''),
 (G, '''        return Vector(y, -x)''', '''        rotated = y, -x
        return Vector(*rotated)'''),
 (G, 'from abc import ABC, abstractmethod\n', 'import operator\nfrom abc import ABC, abstractmethod\n')]),
dict(id='r5-polygon', edits=[(G, '''    return sum(a.x*b.y - a.y*b.x for a, b in iter_rotate(points))/2''', '''    total = 0
    for idx, b in enumerate(points):
        a = points[idx - 1]
        total += a.v.cross(b.v)
    return total / 2'''), (G, '''        sx, sy = self.xy()
        ox, oy = other.xy()
        return Point((sx+ox)/2, (sy+oy)/2)''', '''        return Point(*[(s + o) / 2 for s, o in zip(self, other)])'''),
 (G, '''        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)''', '''        if isinstance(other, Vector):
            kind = Point
        else:
            kind = Vector
        (x, y), (ox, oy) = self.xy(), other.xy()
        return kind(x - ox, y - oy)'''),
 (G, '''        base_x, base_y = self.base.base.xy()
        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y''', '''        delta = Vector(self.base.dx, self.base.dy)
        return (self.base.base + delta * self.scale).xy()''')]),
dict(id='r5-transform-outer', edits=[(T, '''    def translate(self, dx, dy):
        self._mat.pre_dot_eq(self.translate_mat(dx, dy))
        self._inverse = None
        return self

    def scale(self, sx, sy):
        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
        self._inverse = None
        return self
''', '''    def translate(self, dx, dy):
        return self.compose_outer(Matrix(self.translate_mat(dx, dy)))

    def scale(self, sx, sy):
        return self.compose_outer(Matrix(self.scale_mat(sx, sy)))
'''), (T, '''        self._mat.pre_dot_eq(self.rotate_mat(math.radians(degrees)))
        self._inverse = None
        return self''', '''        return self.compose_outer(Matrix(self.rotate_mat(math.radians(degrees))))'''),
 (T, '''        self._mat.pre_dot_eq(self.rotate_mat_ccw(math.radians(degrees)))
        self._inverse = None
        return self''', '''        return self.rotate(-degrees)'''),
 (T, '''        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre_dot_eq(xform._mat.ndmat)
        self._inverse = None
        return self''', '''        return self.compose_outer(Transform().translate(*-center).rotate(angle).translate(*center))'''),
 (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.post_dot_eq(transmat.ndmat)
        self._inverse = None
        return self''', '''        other = transmat._mat if isinstance(transmat, Transform) else transmat
        return self._become(self._mat.ndmat @ other.ndmat)

    def _become(self, ndmat):
        self._mat = Matrix(ndmat)
        self._inverse = None
        return self'''), (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self''', '''        other = transmat._mat if isinstance(transmat, Transform) else transmat
        return self._become(other.ndmat.dot(self._mat.ndmat))'''),
 (T, '''        self._mat = Matrix()
        self._inverse = None
        return self''', '''        return self._become(np.eye(3))''')]),
dict(id='r5-transform-np', edits=[(T, '''        p = np.array([x, y, 1.]).T
        # print('transform: p=', p)
        pp = np.dot(self.inverse, p).T
        return pp[0], pp[1]''', '''        return self.untransform_pts([(x, y)])[0]'''),
 (T, '''        pts = np.array([(x, y, 1) for x, y in pts]).T
        # print('transform: pts=', pts)
        pts = np.dot(self.inverse, pts).T
        return [(x, y) for x, y, z in pts]''', '''        columns = self.inverse @ self.points_to_np_points(pts)
        return list(zip(columns[0], columns[1]))'''),
 (T, '''        return np.dot(self._mat.ndmat, np_pts).T''', '''        return (self._mat.ndmat @ np_pts).transpose()'''),
 (T, '''        return np.array([(x, y, 1)]).T''', '''        return Transformer.points_to_np_points([(x, y)])'''),
 (T, '''        return tuple(v for row in self._mat.ndmat[:2] for v in row)''', '''        return tuple(self._mat.ndmat[:2, :].flatten())'''),
 (T, '''        x, y = np.hypot(m[0], m[1])[0:2]
        return float(x), float(y)''', '''        return math.hypot(m[0][0], m[1][0]), math.hypot(m[0][1], m[1][1])'''),
 (T, '''        if flatten:
            return [v for x, y, *_ in np_pts for v in (x, y)]
        elif isinstance(pts[0], BasePoint):
            return [Point(x, y) for x, y, *_ in np_pts]
        else:
            return [(x, y) for x, y, *_ in np_pts]''', '''        pairs = [(row[0], row[1]) for row in np_pts]
        if flatten:
            out = []
            for pair in pairs:
                out.extend(pair)
            return out
        if isinstance(pts[0], BasePoint):
            return [Point(*pair) for pair in pairs]
        return pairs''')]),
dict(id='r5-elem-draw', edits=[(M, '''        for path in self.paths(draw):
            p = path.points
            do_fill = path.penbrush.filled
            do_outline = path.penbrush.stroked
            if draw.prod and do_outline:
                # TODO-draw_space?
                width = max(1, round(path.penbrush.stroke_width(draw.matrix)))
            else:
                width = 1
''', '''        for path in self.paths(draw):
            self.draw_one_path(draw, path)

    @staticmethod
    def pen_width(draw, penbrush):
        return max(1, round(penbrush.stroke_width(draw.matrix)))

    def draw_one_path(self, draw, path):
        """Draw one of the paths"""
        if True:
            p = path.points
            do_fill = path.penbrush.filled
            do_outline = path.penbrush.stroked
            width = self.pen_width(draw, path.penbrush) if draw.prod and do_outline else 1
'''), (M, '''            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:
                fill_color = draw.shadow_color
            else:
                fill_color = path.penbrush.fill_color
''', '''            fill_color = path.penbrush.fill_color
            if fill_color != TRANSPARENT:
                fill_color = draw.shadow_color or fill_color
'''), (M, '''            rad = max(1, round(path.penbrush.stroke_width(draw.matrix))) / 2
''', '''            rad = Elem.pen_width(draw, path.penbrush) / 2
'''), (M, '''                    coords = (x - rad, y - rad, x + rad, y + rad)
                    if draw.prod:
                        draw.draw.ellipse(coords, fill=path.penbrush.stroke_color)
                    else:
                        draw.draw.ellipse(coords, outline='red', fill=path.penbrush.stroke_color)''', '''                    extra = {} if draw.prod else {'outline': 'red'}
                    draw.draw.ellipse((x - rad, y - rad, x + rad, y + rad), fill=path.penbrush.stroke_color, **extra)'''),
 (M, '''                    draw.draw.line(cp.c.xy() + cp.l.xy(), fill='grey')
                    draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                    draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                    draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')''', '''                    style = dict(outline='red', fill='grey')
                    for end in (cp.l, cp.r):
                        draw.draw.line(cp.c.xy() + end.xy(), fill='grey')
                    for end in (cp.l, cp.r):
                        draw.draw.ellipse((end - rad).xy() + (end + rad).xy(), **style)
                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), **style)''')]),
dict(id='r5-dump-elem', edits=[(M, '''        items = list(kwargs.items())
        if isinstance(items[-1][1], type):
            key, val = items[-1]
            if val is list:
                final_arg = ['%s=[' % key]
            else:
                final_arg = ['%s=%s(' % (key, val.__name__)]
            items.pop()
        else:
            final_arg = []
        args = ['%s=%s' % (key, repr(val)) for key, val in items] + final_arg
        args = ', '.join(args)
        if final_arg:
            dc.append(basic + args)
        else:
            dc.append(basic + args + ')')
        return dc''', '''        parts = []
        closing = ')'
        for key, val in kwargs.items():
            if not isinstance(val, type):
                parts.append('%s=%r' % (key, val))
                continue
            closing = ''        # The caller writes the rest
            opening = '[' if val is list else val.__name__ + '('
            parts.append('%s=%s' % (key, opening))
        dc.append('{}{}{}'.format(basic, ', '.join(parts), closing))
        return dc'''),
 (M, '''        if self.use_vars:
            value = repr(value)
            if value not in self.vars:
                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
            return self.vars[value]
        else:
            return repr(value)''', '''        text = repr(value)
        if not self.use_vars:
            return text
        try:
            return self.vars[text]
        except KeyError:
            number = self.prefixes.setdefault(prefix, 0) + 1
            self.prefixes[prefix] = number
            name = self.vars[text] = f'{prefix}_{number}'
            return name''')]),
dict(id='r5-curve-misc', edits=[(M, '''        bb = self.control_points[0].bbox()
        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb''', '''        first, *rest = [cp.bbox() for cp in self.control_points]
        return sum(rest, first)'''),
 (M, '''        dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
        if not self.closed and len(cps) > 1:
            dists = dists[:-1]      # Open curves have no segment from last to first
        dists = sorted(dists)
        left = (dists[-1][1]) % len(cps)
        right = (left + 1) % len(cps)''', '''        last = len(cps) if self.closed or len(cps) == 1 else len(cps) - 1
        longest, left = -1, None
        for idx in range(last):
            length = (cps[(idx + 1) % len(cps)].c - cps[idx].c).length()
            if length >= longest:
                longest, left = length, idx
        right = (left + 1) % len(cps)'''),
 (M, '''        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp, ocp in zip(self.control_points, other.control_points):
                cp.restore(ocp)
        else:
            msg = 'ElemCurve.restore: self=%d other=%d' % (len(self.control_points), len(other.control_points))
            raise GeomInternalError(msg)''', '''        counts = len(self.control_points), len(other.control_points)
        if counts[0] != counts[1]:
            raise GeomInternalError('ElemCurve.restore: self=%d other=%d' % counts)
        super().restore(other)
        for idx in range(counts[0]):
            self.control_points[idx].restore(other.control_points[idx])'''),
 (M, '''        dl = dl.unit()
        dr = dr.unit()
        if abs(dl.cross(dr)) < 1e-10:
            # Straight segment.  Theta[dl,dr] is 0 or 180
            # print('straight: ', dr, dr.normal(), dr.normal()*offset)
            v_offset = dl.normal()*offset
        else:''', '''        dl, dr = dl.unit(), dr.unit()
        straight = -1e-10 < dl.cross(dr) < 1e-10
        if straight:
            v_offset = offset * dl.normal()
        else:'''),
 (M, '''                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)''', '''                scale = cls.OFFSET_PT_LIMIT if scale > 0 else -cls.OFFSET_PT_LIMIT''')]),
dict(id='r5-rounded', edits=[(M, '''    for a, b, c in iter_rotate(pts, 3, -1):
        ab = a-b
        cb = c-b
        ab_len = ab.length()/2
        cb_len = cb.length()/2
        new_radius = min(radius, ab_len, cb_len)
        if new_radius <= radius:
            clipped = True
        ab = ab.unit()*new_radius if ab_len else Vector(0, 0)
        cb = cb.unit()*new_radius if cb_len else Vector(0, 0)
        ab_scale = min(ab_len - new_radius, new_radius)/new_radius if new_radius else 0
        cb_scale = min(cb_len - new_radius, new_radius)/new_radius if new_radius else 0
        bab = b+ab
        bcb = b+cb
        ab *= bez_90
        cb *= bez_90
        cps.append(ControlPoint(bab, dl=ab_scale * ab, dr=-ab))
        cps.append(ControlPoint(bcb, dl=-cb, dr=cb_scale * cb))''', '''    for a, b, c in iter_rotate(pts, 3, -1):
        sides = a-b, c-b
        halves = [side.length()/2 for side in sides]
        new_radius = min(radius, *halves)
        if new_radius <= radius:
            clipped = True
        corner = []
        for side, half in zip(sides, halves):
            along = side.unit()*new_radius if half else Vector(0, 0)
            scale = min(half - new_radius, new_radius)/new_radius if new_radius else 0
            handle = along * bez_90
            corner.append((b + along, scale * handle, -handle))
        (bab, out_ab, in_ab), (bcb, out_cb, in_cb) = corner
        cps += [ControlPoint(bab, dl=out_ab, dr=in_ab), ControlPoint(bcb, dl=in_cb, dr=out_cb)]'''),
 (M, '''    vr = Vector(r_x, 0)
    vrb = vr*bez_90
    vu = Vector(0, r_y)
    vub = vu*bez_90
    cps = [
        ControlPoint(center+vr, vub, -vub),
        ControlPoint(center-vu, vrb, -vrb),
        ControlPoint(center-vr, -vub, vub),
        ControlPoint(center+vu, -vrb, vrb),
    ]
    return cps''', '''    right, up = Vector(r_x, 0), Vector(0, r_y)
    ring = [(right, up), (-up, right), (-right, -up), (up, -right)]
    return [ControlPoint(center + to, tangent * bez_90, tangent * -bez_90) for to, tangent in ring]''')]),
dict(id='r5-p1p2', edits=[(M, '''        p1 = self.p1.copy()
        p2 = self.p2.copy()
        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())''', '''        kwargs = dict(p1=self.p1.copy(), p2=self.p2.copy(), closed=self.closed, xform=self.xform.copy())
        return type(self)(self.name, self.penbrush, **kwargs)'''),
 (M, '''        with matrix.push().compose(self.xform) as xform:
            xlate, rotate = xform.simplify()
            points = [rotate.untransform_pt(xform.transform_pt(pt)) for pt in points]
            return rotate, points''', '''        combined = matrix.copy().compose(self.xform)
        _, rotate = combined.simplify()
        moved = combined.transform_pts(points) if points else []
        return rotate, [Point(*xy) for xy in rotate.untransform_pts(moved)]'''),
 (M, '''        p1 = self.p1
        p2 = self.p2
        p1x, p1y = p1.xy()
        p2x, p2y = p2.xy()
        return [p1, Point(p1x, p2y), p2, Point(p2x, p1y)]''', '''        (x1, y1), (x2, y2) = self.p1, self.p2
        return [self.p1, Point(x1, y2), self.p2, Point(x2, y1)]'''),
 (M, '''        with self.draw_space(dc):
            path = [p.xy() for p in self.points_transformed(dc.matrix)]
        path.append(path[0])
        return [Path(self.penbrush, self.closed, ImagePath.Path(path))]''', '''        with self.draw_space(dc):
            corners = dc.matrix.transform_pts([p.xy() for p in self.points()])
        return [Path(self.penbrush, self.closed, ImagePath.Path(corners + corners[:1]))]''')]),
]
