G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'; TS = 'x7/geom/testing.py'
REFS = [
dict(id='bez-intersect-filter', edits=[(B, '''    result = bez_intersect_new(cpa1, cpa2, cpb1, cpb2, endpoints=endpoints, do_plot=do_plot)
    if as_points:
        return [pt for pt, ta, tb in result]
    else:
        return list(zip(*[(ta, tb) for pt, ta, tb in result]))
''', '''    found = bez_intersect_new(cpa1, cpa2, cpb1, cpb2, endpoints=endpoints, do_plot=do_plot)
    if not as_points:
        params = [item[1:] for item in found]
        return list(zip(*params))
    return [item[0] for item in found]
'''), (B, '''    if not endpoints and intersections.size:
        intersections = np.array(([(t, s) for t, s in intersections.T if (t, s) not in ((1, 0), (0, 1))])).T
    if intersections.size:
        points = curve_a.evaluate_multi(np.array(intersections[0]).T)
        points = [Point(x, y) for x, y in points.T]
    else:
        points = []
''', '''    if intersections.size and not endpoints:
        kept = []
        for t, s in intersections.T:
            at_end = (t == 1 and s == 0) or (t == 0 and s == 1)
            if not at_end:
                kept.append((t, s))
        intersections = np.array(kept).T
    points = []
    if intersections.size:
        located = curve_a.evaluate_multi(np.array(intersections[0]).T)
        points.extend(Point(*xy) for xy in located.T)
''')]),
dict(id='bez-self-helpers', edits=[(B, '''    # all_curves: list of all curve segments and their intersection t-values/xy-values
    all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
    for cpa, cpb in iter_rotate([cp.copy() for cp in orig_cps]):     # Handles are updated below
        left, middle, right = bez_split(cpa, cpb)
        intersection = bez_intersect_new(left, middle, middle, right)
        if intersection:
            # This segment self-intersects, so split it before adding to all_curves
            all_curves.extend([(left, middle, []), (middle, right, [])])
        else:
            all_curves.append((cpa, cpb, []))
    # bz_plot_curves([[a, b] for a, b, c in all_curves])

    found_ixs = False       # found any intersections?
    for a, b in itertools.combinations(all_curves, 2):
        ixs = bez_intersect_new(a[0], a[1], b[0], b[1], endpoints=False)
        if ixs:
            for pt, ta, tb in ixs:
                a[2].append((ta, pt.xy()))
                b[2].append((tb, pt.xy()))
            found_ixs = True
    if not found_ixs:
''', '''    # all_curves: list of all curve segments and their intersection t-values/xy-values
    all_curves = _self_segments(orig_cps)
    for i, (a0, a1, a_ixs) in enumerate(all_curves):
        for b0, b1, b_ixs in all_curves[i+1:]:
            for pt, ta, tb in bez_intersect_new(a0, a1, b0, b1):
                a_ixs.append((ta, pt.xy()))
                b_ixs.append((tb, pt.xy()))
    if not any(ixs for _, _, ixs in all_curves):
'''), (B, '''def bez_self_intersect(orig_cps''', '''def _self_segments(orig_cps):
    """All curve segments, each without crossings with itself"""
    segments = []
    for cpa, cpb in iter_rotate([cp.copy() for cp in orig_cps]):     # Handles are updated later
        left, middle, right = bez_split(cpa, cpb)
        pieces = [(cpa, cpb)]
        if bez_intersect_new(left, middle, middle, right):
            pieces = [(left, middle), (middle, right)]
        segments += [(a, b, []) for a, b in pieces]
    return segments


def bez_self_intersect(orig_cps'''), (B, '''    first_ix = [ix for ix, cpb in enumerate(cpbs) if cpb.node][0]
''', '''    first_ix = next(ix for ix, cpb in enumerate(cpbs) if cpb.node is not None)
''')]),
dict(id='bez-graph', edits=[(B, '''        for edge in self.edges:
            if not edge.removed and edge.right == self and edge.right_right != not_this_one:
                return edge
        return None
''', '''        usable = (e for e in self.edges if e.right is self and not e.removed and e.right_right is not not_this_one)
        return next(usable, None)
'''), (B, '''        for node in self.nodes.values():
            if node.any_edge():
                return node
        return None
''', '''        return next((node for node in self.nodes.values() if node.any_edge() is not None), None)
'''), (B, '''        if create and xy not in self.nodes:
            self.nodes[xy] = BziNode(xy)
        return self.nodes[xy]
''', '''        if create:
            return self.nodes.setdefault(xy, BziNode(xy))
        return self.nodes[xy]
''')]),
dict(id='cp-transform', edits=[(B, '''        t_c = matrix.transform_pt(self.c)
        t_l = matrix.transform_pt(self.l)
        t_r = matrix.transform_pt(self.r)
        cp = ControlPoint(t_c, t_l-t_c, t_r-t_c, self.kind)
        if not matrix.LINEAR:
            # Non-linear transform, fix dl/dr relationship
            if cp.kind == 'very-smooth':
                cp.dr = (cp.dr - cp.dl) / 2
                cp.dl = -cp.dr
            elif cp.kind == 'smooth':
                direction = cp.dr - cp.dl
                if direction:
                    direction = direction.unit()
                    cp.dr = cp.dr.length() * direction
                    cp.dl = -cp.dl.length() * direction
        return cp
''', '''        center, left, right = [matrix.transform_pt(p) for p in (self.c, self.l, self.r)]
        dl = left - center
        dr = right - center
        if not matrix.LINEAR:
            dl, dr = self._realign(dl, dr)
        return ControlPoint(center, dl, dr, self.kind)

    def _realign(self, dl: Vector, dr: Vector) -> Tuple[Vector, Vector]:
        """Make handles opposite again after a non-linear transform, as kind demands"""
        across = dr - dl
        if self.kind == 'very-smooth':
            half = across / 2
            return -half, half
        if self.kind == 'smooth' and across:
            along = across.unit()
            return along * -dl.length(), along * dr.length()
        return dl, dr
''')]),
dict(id='geom-parse', edits=[(G, '''            if isinstance(a, Number):
                try:
                    y = next(it)
                except StopIteration:
                    raise ValueError('Missing y value for x=%r' % a)
                if not isinstance(y, Number):
                    raise ValueError('y value for x=%s must be a number' % repr(a))
                val = (a, y)
            elif isinstance(a, BasePoint):
                val = a
            elif isinstance(a, tuple):
                if allow_thruples:
                    if not len(a) in {2, 3}:
                        raise ValueError('tuples must be x,y or x,y,a, not %s' % repr(a))
                elif len(a) != 2:
                    raise ValueError('tuples must be x,y, not %s' % repr(a))
                val = a
            else:
                raise ValueError('Expected x,y or (x,y) or Point, not %s' % repr(a))
            out.append(val)
        return out
''', '''            if isinstance(a, BasePoint):
                out.append(a)
            elif isinstance(a, tuple):
                sizes, expected = ((2, 3), 'x,y or x,y,a') if allow_thruples else ((2, ), 'x,y')
                if len(a) not in sizes:
                    raise ValueError('tuples must be %s, not %r' % (expected, a))
                out.append(a)
            elif isinstance(a, Number):
                y = next(it, None)
                if y is None:
                    raise ValueError('Missing y value for x=%r' % a)
                if not isinstance(y, Number):
                    raise ValueError('y value for x=%r must be a number' % a)
                out.append((a, y))
            else:
                raise ValueError('Expected x,y or (x,y) or Point, not %r' % (a, ))
        return out
'''), (G, '''        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
''', '''        deltas = [mine - theirs for mine, theirs in zip(self.xy(), other.xy())]
        if isinstance(other, Vector):
            return Point(*deltas)
        return Vector(*deltas)
'''), (G, '''    return sum(a.x*b.y - a.y*b.x for a, b in iter_rotate(points))/2
''', '''    total = 0
    for a, b in iter_rotate(points):
        (ax, ay), (bx, by) = a.xy(), b.xy()
        total += ax*by - bx*ay
    return total / 2
''')]),
dict(id='transform-scale-bbox', edits=[(T, '''        else:
            sx, sy = target.width / start.width, target.height / start.height
            self.translate(-start.xl, -start.yl)
            self.scale(sx, sy)
            self.translate(target.xl, target.yl)
        return self
''', '''            return self
        sx = target.width / start.width
        sy = target.height / start.height
        return self.translate(-start.xl, -start.yl).scale(sx, sy).translate(target.xl, target.yl)
'''), (T, '''        if self.is_simple():
            return Transform((a, b, c, d, e, f)), Transform()
        else:
            return Transform((1, 0, c, 0, 1, f)), Transform((a, b, 0, d, e, 0))
''', '''        if not self.is_simple():
            return Transform((1, 0, c, 0, 1, f)), Transform((a, b, 0, d, e, 0))
        return Transform((a, b, c, d, e, f)), Transform()
'''), (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        if isinstance(transmat, Transform):
            transmat = transmat._mat
        self._inverse = None
        self._mat.pre_dot_eq(transmat.ndmat)
        return self
''')]),
dict(id='transform-pop', edits=[(T, '''        if not self.stack:
            raise EmptyStackError()
        self._mat = self.stack.pop()
        self._inverse = None
''', '''        try:
            saved = self.stack.pop()
        except IndexError:
            raise EmptyStackError()
        self._mat, self._inverse = saved, None
'''), (T, '''        p = np.array([x, y, 1.]).T
        # print('transform: p=', p)
        pp = np.dot(self.inverse, p).T
        return pp[0], pp[1]
''', '''        px, py, _ = self.inverse @ np.array([x, y, 1.])
        return px, py
'''), (T, '''        pts = np.array([(x, y, 1) for x, y in pts]).T
        # print('transform: pts=', pts)
        pts = np.dot(self.inverse, pts).T
        return [(x, y) for x, y, z in pts]

    def push''', '''        back = self.inverse
        columns = np.array([[x, y, 1] for x, y in pts]).T
        return [(p[0], p[1]) for p in np.dot(back, columns).T]

    def push''')]),
dict(id='penbrush-coerce', edits=[(C, '''        if isinstance(pen, Pen) or pen is None:
            self.pen = pen
        elif isinstance(pen, tuple) and len(pen) == 2:
            self.pen = Pen(*pen)        # (color, width)
        else:
            self.pen = Pen(pen)         # color
        if isinstance(brush, Brush) or brush is None:
            self.brush = brush
        else:
            self.brush = Brush(brush)  # color
''', '''        if pen is not None and not isinstance(pen, Pen):
            if isinstance(pen, tuple) and len(pen) == 2:
                color, width = pen
                pen = Pen(color, width)
            else:
                pen = Pen(pen)
        self.pen = pen
        self.brush = brush if brush is None or isinstance(brush, Brush) else Brush(brush)
'''), (C, '''        if self.pen:
            if self.pen.width > 0:
                return self.pen.width
            else:
                return xform.transform_width(-self.pen.width)
''', '''        if not self.pen:
            return None
        width = self.pen.width
        return width if width > 0 else xform.transform_width(-width)
'''), (C, '''        if pen and width is not None:
            raise ValueError("specify pen or width not both")
        if width is not None and self.pen:
            pen = Pen(self.pen.brush, width)
        return PenBrush(pen or self.pen, brush or self.brush)
''', '''        new_pen = self.pen
        if width is not None:
            if pen:
                raise ValueError("specify pen or width not both")
            if self.pen:
                new_pen = self.pen.replace(width=width)
        return PenBrush(pen or new_pen, brush or self.brush)
''')]),
dict(id='drawing-image', edits=[(D, '''        if self.shadow:
            background = Image.alpha_composite(self.background, self.shadow)
        else:
            background = self.background
        im = Image.alpha_composite(background, self.layer)
        if isinstance(crop, tuple):
            im = im.crop(self.crop_to_pixels(crop))
        elif crop:
            im = im.crop(self.crop)
        return im
''', '''        im = self.background
        for over in (self.shadow, self.layer):
            if over is not None:
                im = Image.alpha_composite(im, over)
        if not crop:
            return im
        box = self.crop_to_pixels(crop) if isinstance(crop, tuple) else self.crop
        return im.crop(box)
'''), (D, '''        draw = self.draw
        self.alloc_shadow()
        shadow_draw = ImageDraw.Draw(self.shadow)
        try:
            self.draw = shadow_draw
            self.shadow_color = color
            model.draw(self)
        finally:
            self.draw = draw
            self.shadow_color = None
''', '''        self.alloc_shadow()
        saved, self.draw = self.draw, ImageDraw.Draw(self.shadow)
        self.shadow_color = color
        try:
            model.draw(self)
        finally:
            self.shadow_color = None
            self.draw = saved
''')]),
dict(id='testing-pickle', edits=[(TS, '''        meths = dict()
        for primitive in self.primitives:
            meths[primitive.__name__] = primitive
        for elem in all_subclasses(Elem):
            meths[elem.__name__] = elem
''', '''        meths = {klass.__name__: klass for klass in self.primitives}
        meths.update((elem.__name__, elem) for elem in all_subclasses(Elem))
'''), (TS, '''        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
        msg = []
        if almost_x is not True:
            msg.append('x: ' + almost_x)
        if almost_y is not True:
            msg.append('y: ' + almost_y)
        return ', '.join(msg) if msg else True
''', '''        problems = []
        for axis in ('x', 'y'):
            almost = self.test_case.almostEqualFloat(getattr(first, axis), getattr(second, axis), places=places, delta=delta)
            if almost is not True:
                problems.append('%s: %s' % (axis, almost))
        return ', '.join(problems) or True
'''), (TS, '''        import matplotlib.pyplot as plt
        self.titley = plt.rcParams['axes.titley']
        self.titlepad = plt.rcParams['axes.titlepad']
        plt.rcParams['axes.titley'] = 1.0
        plt.rcParams['axes.titlepad'] = -20
''', '''        import matplotlib.pyplot as plt
        params = plt.rcParams
        self.titley, self.titlepad = params['axes.titley'], params['axes.titlepad']
        params.update({'axes.titley': 1.0, 'axes.titlepad': -20})
''')]),
]
