G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'; TS = 'x7/geom/testing.py'
REFS = [
dict(id='r7-group-state', edits=[
 (M, '''        self.name = other.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.hidden = other.hidden
        self.xform = other.xform.copy()
        self.elems = dict(other.elems)
        self.points = dict(other.points)
''', '''        Elem.restore(self, other)
        self.hidden = other.hidden
        self.elems, self.points = self._tables(other)

    @staticmethod
    def _tables(group):
        """The tables of a group, to be owned by another group"""
        return {**group.elems}, {**group.points}
'''),
 (M, '''        elems = dict(self.elems)
        points = dict(self.points)
        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
''', '''        return self._with_xform(self.xform.copy())

    def _with_xform(self, xform):
        elems, points = self._tables(self)
        return type(self)(
            self.name, self.penbrush, hidden=self.hidden, xform=xform,
            elems=elems, points=points, closed=self.closed)
'''),
 (M, '''        xform = matrix.copy().compose(self.xform)
        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
''', '''        return self._with_xform(matrix.copy().compose(self.xform))
'''),
]),
dict(id='r7-group-walks', edits=[
 (M, '''        matrix = matrix or Transform()
        with matrix.push().compose(self.xform):
            for elem in self.elems.values():
                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
''', '''        matrix = matrix or Transform()
        path = '.'.join(part for part in (root, self.name) if part is not root or root)
        matrix.push()
        try:
            matrix.compose(self.xform)
            for elem in self.elems.values():
                for found in elem.iter_elems(path, matrix):
                    yield found
        finally:
            matrix.pop()
'''),
 (M, '''        if not self.elems:
            raise GeomInternalError('Group.bbox_int on empty group')
        bbox = BBox(None)
        for elem in self.elems.values():
            bbox = bbox + elem.bbox()
        return bbox
''', '''        members = iter(self.elems.values())
        first = next(members, None)
        if first is None:
            raise GeomInternalError('Group.bbox_int on empty group')
        total = first.bbox()
        for member in members:
            total += member.bbox()
        return total
'''),
 (M, '''        head, sep, tail = tag.partition('.')
        if head not in self.elems:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
        item = self.elems[head]
        if tail:
            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail)
            else:
                raise ValueError('no sub-group found for %r' % tail)
        else:
            return item
''', '''        head, *rest = tag.split('.', 1)
        try:
            item = self.elems[head]
        except KeyError:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems))) from None
        if not rest or not rest[0]:
            return item
        if not isinstance(item, (Group, ElemWithHoles)):
            raise ValueError('no sub-group found for %r' % rest[0])
        return item.lookup(rest[0])
'''),
 (M, '''        for name, e in list(self.elems.items()):
            if e == elem:
                print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
                # Keep the position, since that is the drawing order
                self.elems = dict(
                    (replacement.name, replacement) if n == name else (n, other) for n, other in self.elems.items())
                count += 1
''', '''        for name, e in tuple(self.elems.items()):
            if e == elem:
                print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
                # Keep the position, since that is the drawing order
                names = [replacement.name if n == name else n for n in self.elems]
                shapes = [replacement if n == name else s for n, s in self.elems.items()]
                self.elems = {n: s for n, s in zip(names, shapes)}
                count += 1
'''),
]),
dict(id='r7-offset', edits=[
 (M, '''        points = [(cp.l, cp.c, cp.r) for cp in transformed.control_points]
        points = [pt for pts in points for pt in pts]
        if polygon_area(points) < 0:
            x_cps = [cp.reversed() for cp in reversed(transformed.control_points)]
        else:
            x_cps = transformed.control_points
''', '''        points = []
        for cp in transformed.control_points:
            points += [cp.l, cp.c, cp.r]
        clockwise = polygon_area(points) < 0
        x_cps = ControlPoint.reverse_list(transformed.control_points) if clockwise else transformed.control_points
'''),
 (M, '''        for cl, cm, cr in iter_rotate(x_cps, 3, -1):
            a, b, c, d, e = cl.r, cm.l, cm.c, cm.r, cr.l
            ab = a-b
            cb = c-b        # also -cm.dl
            bo = self.offset_pt(ab, b, cb, offset)
            co = self.offset_pt(cm.dl, cm.c, cm.dr, offset)
            cd = c-d
            ed = e-d
            do = self.offset_pt(cd, d, ed, offset)
            cps.append(ControlPoint(co, bo-co, do-co, cm.kind))
''', '''        count = len(x_cps)
        for idx, here in enumerate(x_cps):
            before, after = x_cps[idx - 1], x_cps[(idx + 1) % count]
            centre = self.offset_pt(here.dl, here.c, here.dr, offset)
            left = self.offset_pt(before.r - here.l, here.l, here.c - here.l, offset)
            right = self.offset_pt(here.c - here.r, here.r, after.l - here.r, offset)
            cps.append(ControlPoint(centre, left - centre, right - centre, kind=here.kind))
'''),
]),
dict(id='r7-rounded', edits=[
 (M, '''    if clipped:
        out = []
        for a, b, c in iter_rotate(cps, 3):
            if b.c == c.c:
                b.dr = c.dr
            elif b.c == a.c:
                continue
            out.append(b)
        cps = out
    return cps
''', '''    return _merge_corners(cps) if clipped else cps


def _merge_corners(cps):
    """Remove the second of two neighbours at the same place, the first leads on as it did"""
    kept = []
    total = len(cps)
    for idx in range(total):
        before, here, after = cps[idx], cps[(idx + 1) % total], cps[(idx + 2) % total]
        if here.c == after.c:
            here.dr = after.dr
            kept.append(here)
        elif here.c != before.c:
            kept.append(here)
    return kept
'''),
 (M, '''    vr = Vector(r_x, 0)
    vrb = vr*bez_90
    vu = Vector(0, r_y)
    vub = vu*bez_90
    cps = [
        ControlPoint(center+vr, vub, -vub),
        ControlPoint(center-vu, vrb, -vrb),
        ControlPoint(center-vr, -vub, vub),
        ControlPoint(center+vu, -vrb, vrb),
    ]
    return cps
''', '''    spokes = [Vector(r_x, 0), Vector(0, -r_y), Vector(-r_x, 0), Vector(0, r_y)]
    cps = []
    for idx, spoke in enumerate(spokes):
        along = spokes[idx - 1] * bez_90
        cps.append(ControlPoint(center + spoke, dl=along, dr=-along))
    return cps
'''),
]),
dict(id='r7-holes', edits=[
 (M, '''            edges = self.outside.paths(dc)
            assert len(edges) == 1
            edge_brush = PenBrush(self.penbrush.pen, None)
            edges[0].penbrush = edge_brush
            fill_brush = PenBrush(None, self.penbrush.brush)  # Just the fill component
            if fill_brush.brush:
                fill_path = Path(fill_brush, edges[0].closed, edges[0].points)
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=True)
                    edges.extend(paths)
                return [fill_path] + edges
            else:
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                    edges.extend(paths)
                return edges
''', '''            outline, = self.outside.paths(dc)
            holes = [path for elem in self.inside for path in elem.paths(dc)]
            edge_brush = PenBrush(self.penbrush.pen, None)
            edges = [outline, *holes]
            for path in edges:
                path.penbrush = edge_brush
            if not self.penbrush.brush:
                return edges
            fill_path = Path(PenBrush(None, self.penbrush.brush), outline.closed, outline.points)
            for path in holes:
                fill_path.extend(path.points, closed=True)
            edges.insert(0, fill_path)
            return edges
'''),
 (M, '''            bbox_inside = BBox(None)
            for elem in self.inside:
                bbox_inside = bbox_inside + elem.bbox()
            assert bbox_outside.contains(bbox_inside)
''', '''            assert bbox_outside.contains(sum((e.bbox() for e in self.inside), BBox(None)))
'''),
 (M, '''        if head == 'outside':
            if tail == self.outside.name:
                return self.outside
        elif head == 'inside':
            for elem in self.inside:
                if tail == elem.name:
                    return elem
''', '''        candidates = {'outside': [self.outside], 'inside': self.inside}.get(head, ())
        for elem in candidates:
            if elem.name == tail:
                return elem
'''),
]),
dict(id='r7-bbox', edits=[
 (G, '''        if self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl:
            return False
        return True
''', '''        across = self.xl < other.xh and other.xl < self.xh
        return across and self.yl < other.yh and other.yl < self.yh
'''),
 (G, '''        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:
            return BBox(None)
        return BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))
''', '''        xl, xh = max(self.xl, other.xl), min(self.xh, other.xh)
        yl, yh = max(self.yl, other.yl), min(self.yh, other.yh)
        return BBox(None) if xl > xh or yl > yh else BBox(xl, yl, xh, yh)
'''),
 (G, '''        if self.xl is None:
            self.xl = self.xh = x
            self.yl = self.yh = y
        else:
            self.xl = min(self.xl, x)
            self.xh = max(self.xh, x)
            self.yl = min(self.yl, y)
            self.yh = max(self.yh, y)
''', '''        if self.is_none:
            self.xl, self.yl, self.xh, self.yh = x, y, x, y
            return
        for low, high, value in (('xl', 'xh', x), ('yl', 'yh', y)):
            if value < getattr(self, low):
                setattr(self, low, value)
            elif value > getattr(self, high):
                setattr(self, high, value)
'''),
 (G, '''        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        return BBox(ll, lh) + BBox(hh, hl)
''', '''        corners = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        result = BBox(None)
        for corner in corners:
            result.grow(corner)
        return result
'''),
 (G, '''        expand_x = max(expand_x, -self.width/2)
        expand_y = max(expand_y, -self.height/2)
        return BBox(self.xl-expand_x, self.yl-expand_y, self.xh+expand_x, self.yh+expand_y)
''', '''        dx, dy = (max(by, -size / 2) for by, size in zip((expand_x, expand_y), self.size()))
        margin = Vector(dx, dy)
        return BBox(self.pll - margin, self.phh + margin)
'''),
]),
dict(id='r7-transform', edits=[
 (T, '''        if keep_aspect:
            # Retain aspect ratio and center transform
            scale = min(target.width / start.width, target.height / start.height)
            self.translate(-start.xl, -start.yl)
            self.scale(scale, scale)
            w_extra = target.width - start.width*scale
            h_extra = target.height - start.height*scale
            self.translate(target.xl + w_extra/2, target.yl + h_extra/2)
        else:
            sx, sy = target.width / start.width, target.height / start.height
            self.translate(-start.xl, -start.yl)
            self.scale(sx, sy)
            self.translate(target.xl, target.yl)
        return self
''', '''        sx, sy = target.width / start.width, target.height / start.height
        if keep_aspect:
            sx = sy = min(sx, sy)
        spare_x = target.width - start.width * sx if keep_aspect else 0
        spare_y = target.height - start.height * sy if keep_aspect else 0
        return (self
                .translate(-start.xl, -start.yl)
                .scale(sx, sy)
                .translate(target.xl + spare_x / 2, target.yl + spare_y / 2))
'''),
 (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.post_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        return self._changed(self._mat.post_dot_eq, transmat)

    def _changed(self, operation, transmat):
        operation((transmat._mat if isinstance(transmat, Transform) else transmat).ndmat)
        self._inverse = None
        return self
'''),
 (T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        return self._changed(self._mat.pre_dot_eq, transmat)
'''),
 (T, '''        a, b, c, d, e, f = self.as_6tuple()
        a = 0 if near_zero(a) else a
        b = 0 if near_zero(b) else b
        d = 0 if near_zero(d) else d
        e = 0 if near_zero(e) else e
        if self.is_simple():
            return Transform((a, b, c, d, e, f)), Transform()
        else:
            return Transform((1, 0, c, 0, 1, f)), Transform((a, b, 0, d, e, 0))
''', '''        a, b, c, d, e, f = self.as_6tuple()
        linear = [0 if near_zero(v) else v for v in (a, b, d, e)]
        if self.is_simple():
            return Transform((*linear[:2], c, *linear[2:], f)), Transform.identity()
        return Transform((1, 0, c, 0, 1, f)), Transform((*linear[:2], 0, *linear[2:], 0))
'''),
 (T, '''        return np.dot(self._mat.ndmat, np_pts).T
''', '''        return (self._mat.ndmat @ np_pts).transpose()
'''),
 (T, '''        p = np.array([x, y, 1.]).T
        # print('transform: p=', p)
        pp = np.dot(self.inverse, p).T
        return pp[0], pp[1]
''', '''        back_x, back_y, _ = np.dot(self.inverse, np.array([x, y, 1.]))
        return back_x, back_y
'''),
]),
dict(id='r7-morph', edits=[
 (A, '''        idx = bisect.bisect_right(self.all_steps, t)
        if idx == 0:
            low_c = self.all_curves[0]
            high_c = low_c
        elif idx >= len(self.all_curves):
            low_c = self.all_curves[-1]
            high_c = low_c
        else:
            low_c = self.all_curves[idx-1]
            high_c = self.all_curves[idx]
            t = (t-self.all_steps[idx-1]) / (self.all_steps[idx] - self.all_steps[idx-1])
''', '''        idx = sum(1 for step in self.all_steps if step <= t)
        last = len(self.all_curves) - 1
        low_c, high_c = self.all_curves[max(idx - 1, 0)], self.all_curves[min(idx, last)]
        if 0 < idx <= last:
            before, after = self.all_steps[idx - 1:idx + 1]
            t = (t - before) / (after - before)
'''),
 (A, '''                morph_pt.setxy(*(low_pt + t * (high_pt - low_pt)).xy())
''', '''                morph_pt.set(low_pt + (high_pt - low_pt) * t)
'''),
 (A, '''                bbox = c.bbox()
                dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
                ll = dists[0][1]
                old_len''', '''                corner = c.bbox().p1
                dists = [(corner-cp.c).length() for cp in c.control_points]
                ll = dists.index(min(dists))
                old_len'''),
]),
dict(id='r7-drawing', edits=[
 (D, '''        x1, y1, x2, y2 = map(int, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
        return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)
''', '''        corners = [self.scale_pt(*crop[:2]), self.scale_pt(*crop[2:])]
        xs, ys = ([int(v) for v in column] for column in zip(*corners))
        return min(xs), min(ys), max(xs), max(ys)
'''),
 (D, '''        draw = self.draw
        self.alloc_shadow()
        shadow_draw = ImageDraw.Draw(self.shadow)
        try:
            self.draw = shadow_draw
            self.shadow_color = color
            model.draw(self)
        finally:
            self.draw = draw
            self.shadow_color = None
''', '''        self.alloc_shadow()
        saved = self.draw
        self.draw, self.shadow_color = ImageDraw.Draw(self.shadow), color
        try:
            model.draw(self)
        finally:
            self.draw, self.shadow_color = saved, None
'''),
]),
dict(id='r7-bez', edits=[
 (B, '''    if closed:
        extra = cps
    else:
        extra = []
    for p, q in zip(cps, cps[1:] + extra):
        curve_pts = transform.transform_pts([p.c, p.r, q.l, q.c])
        bez_pts = bez(curve_pts, steps=steps, as_xy=False)
        if pts:
            pts.extend(bez_pts[2:])  # Skip first point, as it is already there
        else:
            pts.extend(bez_pts)
    return pts
''', '''    count = len(cps)
    for idx in range(count if closed else count - 1):
        p, q = cps[idx], cps[(idx + 1) % count]
        along = bez(transform.transform_pts([p.c, p.r, q.l, q.c]), steps=steps)
        pts += along[2 if idx else 0:]
    return pts
'''),
 (B, '''    def mid(p: BasePoint, q: BasePoint):
        return p + t*(q-p)

    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
    ab = mid(a, b)
    bc = mid(b, c)
    cd = mid(c, d)
    abc = mid(ab, bc)
    bcd = mid(bc, cd)
    abcd = mid(abc, bcd)

    left = ControlPoint(a, cp1.dl, ab-a)
    middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
    right = ControlPoint(d, cd-d, cp2.dr)

    return left, middle, right
''', '''    levels = [[cp1.c, cp1.r, cp2.l, cp2.c]]
    while len(levels[-1]) > 1:
        row = levels[-1]
        levels.append([p + t*(q-p) for p, q in zip(row, row[1:])])
    _, (ab, _, cd), (abc, bcd), (abcd, ) = levels
    return (
        ControlPoint(cp1.c, cp1.dl, ab - cp1.c),
        ControlPoint(abcd, abc - abcd, bcd - abcd),
        ControlPoint(cp2.c, cd - cp2.c, cp2.dr),
    )
'''),
]),
]
