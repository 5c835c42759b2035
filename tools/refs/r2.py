G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'
REFS = [
dict(id='anim-lerp', edits=[(A, '''        orig_x, orig_y = self.orig.xy()
        targ_x, targ_y = self.target.xy()
        tx, ty = t if isinstance(t, tuple) else (t, t)
        sx, sy = 1 - tx, 1 - ty
        self.point.setxy(sx * orig_x + tx * targ_x, sy * orig_y + ty * targ_y)
''', '''        times = t if isinstance(t, tuple) else (t,) * 2
        self.point.setxy(*[(1 - f) * a + f * b for f, a, b in zip(times, self.orig, self.target)])
'''), (A, '''        t = (1.0 - cos(t * tau * self.frequency + self.offset * tau / 360)) * 0.5
        ox, oy = self.orig.xy()
        tx, ty = self.target.xy()
        s = 1 - t
        self.point.setxy(s * ox + t * tx, s * oy + t * ty)
''', '''        angle = tau * (t * self.frequency + self.offset / 360)
        amount = 0.5 - cos(angle) / 2
        ox, oy = self.orig.xy()
        tx, ty = self.target.xy()
        self.point.set(Point(ox + amount * (tx - ox), oy + amount * (ty - oy)))
'''), (A, '''        for animation in self.animations:
            animation.update(t)
''', '''        pending = iter(self.animations)
        while True:
            try:
                animation = next(pending)
            except StopIteration:
                break
            animation.update(t)
''')]),
dict(id='anim-morph-helper', edits=[(A, '''        t = self.t_func(t)

        morph_cp = self.morph.control_points
        orig_cp = self.orig.control_points
        target_cp = self.target.control_points

        def pts(cp):
            return cp.c, cp.dl, cp.dr

        if t is None:
            # Hidden hack--just move off-screen
            for morph in morph_cp:
                morph.c.setxy(1e6, 1e6)
                morph.dl.setxy(0, 0)
                morph.dr.setxy(0, 0)
            return

        for morph, orig, target in zip(morph_cp, orig_cp, target_cp):
            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                # print(' mot=', m, o, tgt)
                m.setxy(*(o + t * (tgt - o)).xy())
''', '''        t = self.t_func(t)
        if t is None:
            _hide(self.morph)
        else:
            _blend(self.morph, self.orig, self.target, t)
'''), (A, '''        t = self.t_func(t)
        if t is None:
            # Hidden hack--just move off-screen
            for morph_cp in morph_cps:
                morph_cp.c.setxy(1e6, 1e6)
                morph_cp.dl.setxy(0, 0)
                morph_cp.dr.setxy(0, 0)
            return

        idx = bisect.bisect_right(self.all_steps, t)
        if idx == 0:
            low_c = self.all_curves[0]
            high_c = low_c
        elif idx >= len(self.all_curves):
            low_c = self.all_curves[-1]
            high_c = low_c
        else:
            low_c = self.all_curves[idx-1]
            high_c = self.all_curves[idx]
            t = (t-self.all_steps[idx-1]) / (self.all_steps[idx] - self.all_steps[idx-1])

        low_cps = low_c.control_points
        high_cps = high_c.control_points

        def pts(cp):
            return cp.c, cp.dl, cp.dr

        for morph_cp, low_cp, high_cp in zip(morph_cps, low_cps, high_cps):
            for morph_pt, low_pt, high_pt in zip(pts(morph_cp), pts(low_cp), pts(high_cp)):
                # print(' mot=', m, o, tgt)
                morph_pt.setxy(*(low_pt + t * (high_pt - low_pt)).xy())
''', '''        t = self.t_func(t)
        if t is None:
            _hide(self.morph)
            return
        del morph_cps
        steps = self.all_steps
        if t < steps[0]:
            _blend(self.morph, self.all_curves[0], self.all_curves[0], 0)
        elif t >= steps[-1]:
            _blend(self.morph, self.all_curves[-1], self.all_curves[-1], 0)
        else:
            for lo in range(len(steps) - 1):
                if steps[lo] <= t < steps[lo + 1]:
                    span = steps[lo + 1] - steps[lo]
                    _blend(self.morph, self.all_curves[lo], self.all_curves[lo + 1], (t - steps[lo]) / span)
                    break
'''), (A, '''class Morph(Animation):
''', '''def _hide(curve):
    for cp in curve.control_points:
        for point, where in ((cp.c, 1e6), (cp.dl, 0), (cp.dr, 0)):
            point.setxy(where, where)


def _blend(dest, low, high, t):
    for cp, a, b in zip(dest.control_points, low.control_points, high.control_points):
        for attr in ('c', 'dl', 'dr'):
            ax, ay = getattr(a, attr).xy()
            bx, by = getattr(b, attr).xy()
            getattr(cp, attr).setxy(ax + t * (bx - ax), ay + t * (by - ay))


class Morph(Animation):
''')]),
dict(id='anim-simple-gen', edits=[(S, '''        step_size = (self.t_high - self.t_low) / self.steps
        for step in range(self.steps+1):
            with self.next_step() as dc:
                step_t = self.t_low + step * step_size
                self.draw_func(dc, step_t)
''', '''        for step_t in self._times():
            context = self.next_step()
            with context as dc:
                self.draw_func(dc, step_t)

    def _times(self):
        """Yield t_low ... t_high, inclusive"""
        span = self.t_high - self.t_low
        yield from (self.t_low + span * step / self.steps for step in range(self.steps + 1))
'''), (S, '''class StepContext(object):
    """Context used by SimpleAnim.next_step"""

    def __init__(self, sa: 'SimpleAnimation', dc: DrawingContext):
        self.sa = sa
        self.dc = dc

    def __enter__(self):
        return self.dc

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.sa.finish_step(self.dc)
''', '''@contextlib.contextmanager
def StepContext(sa, dc):
    """Context used by SimpleAnim.next_step"""
    try:
        yield dc
    finally:
        sa.finish_step(dc)
'''), (S, '''import math
import sys
''', '''import contextlib
import math
import sys
'''), (S, ''') -> StepContext:''', '''):''')]),
dict(id='drawing-composite', edits=[(D, '''        if self.shadow:
            background = Image.alpha_composite(self.background, self.shadow)
        else:
            background = self.background
        im = Image.alpha_composite(background, self.layer)
''', '''        im = self.background
        for over in filter(None, (self.shadow, self.layer)):
            im = Image.alpha_composite(im, over)
'''), (D, '''        draw = self.draw
        self.alloc_shadow()
        shadow_draw = ImageDraw.Draw(self.shadow)
        try:
            self.draw = shadow_draw
            self.shadow_color = color
            model.draw(self)
        finally:
            self.draw = draw
            self.shadow_color = None
''', '''        self.alloc_shadow()
        with self._shadowing(ImageDraw.Draw(self.shadow), color):
            model.draw(self)
'''), (D, '''    def show(self):
        self.image().show()
''', '''    @contextmanager
    def _shadowing(self, target, color):
        saved, self.draw = self.draw, target
        self.shadow_color = color
        try:
            yield self
        finally:
            self.shadow_color = None
            self.draw = saved

    def show(self):
        self.image().show()
'''), (D, '''class DrawingContext(object):
''', '''from contextlib import contextmanager


class DrawingContext(object):
'''), (D, '''        x1, y1, x2, y2 = map(int, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
        return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)
''', '''        left, top, right, bottom = crop
        xs, ys = zip(self.scale_pt(left, top), self.scale_pt(right, bottom))
        xs, ys = sorted(int(x) for x in xs), sorted(int(y) for y in ys)
        return xs[0], ys[0], xs[-1], ys[-1]
''')]),
dict(id='vecfield-vector', edits=[(V, '''        vf = self.zeros()
        for i in range(self.x_shape[0]):
            for j in range(self.x_shape[1]):
                vf.vx[i, j] = random.uniform(-magnitude, magnitude)
                vf.vy[i, j] = random.uniform(-magnitude, magnitude)
        return vf
''', '''        vf = self.zeros()
        rows, cols = self.x_shape
        for i, j in itertools.product(range(rows), range(cols)):
            for grid in (vf.vx, vf.vy):
                grid[i, j] = random.uniform(-magnitude, magnitude)
        return vf
'''), (V, '''import random
import numpy as np
''', '''import itertools
import random
import numpy as np
'''), (V, '''        mags = np.sqrt(np.add(np.multiply(self.vx, self.vx), np.multiply(self.vy, self.vy)))
        max_mag = np.amax(mags)
        vx = np.multiply(self.vx, 1 / max_mag)
        vy = np.multiply(self.vy, 1 / max_mag)
        return VectorField(self.mesh, vx, vy)
''', '''        longest = np.max(np.sqrt(self.vx ** 2 + self.vy ** 2))
        return self.scaled(1 / longest)
'''), (V, '''                u, v = 0, 0
                count = 0
                r = 2
                for x in range(max(0, i - r), min(shape[0], i + r)):
                    for y in range(max(0, j - r), min(shape[1], j + r)):
                        u += self.vx[x, y]
                        v += self.vy[x, y]
                        count += 1
                center_weight = 20 - 1
                count += center_weight
                u += center_weight * self.vx[i, j]
                v += center_weight * self.vy[i, j]
                vx_smoothed[i, j] = u / count
                vy_smoothed[i, j] = v / count
''', '''                r = 2
                window = (slice(max(0, i - r), min(shape[0], i + r)), slice(max(0, j - r), min(shape[1], j + r)))
                center_weight = 20 - 1
                for src, dst in ((self.vx, vx_smoothed), (self.vy, vy_smoothed)):
                    near = src[window]
                    dst[i, j] = (np.sum(near) + center_weight * src[i, j]) / (near.size + center_weight)
'''), (V, '''        np_pts = np_pts[:2, :].T
        vx_vals, vy_vals = self.interp_coords(np_pts)
        return [(x+vx, y+vy) for (x, y), vx, vy in zip(np_pts, vx_vals, vy_vals)]
''', '''        xy = np_pts[:2, :].transpose()
        moves = np.array(self.interp_coords(xy)).transpose()
        return [tuple(row) for row in xy + moves]
''')]),
dict(id='vecfield-eq', edits=[(V, '''        return (
            isinstance(other, type(self)) and self.bbox == other.bbox and self.steps == other.steps
            and np.array_equal(self.coord_x, other.coord_x) and np.array_equal(self.coord_y, other.coord_y)
            and np.array_equal(self.x_grid, other.x_grid) and np.array_equal(self.y_grid, other.y_grid)
            and np.array_equal(self.x_shape, other.x_shape)
        )
''', '''        if not isinstance(other, type(self)):
            return False
        if (self.bbox, self.steps) != (other.bbox, other.steps):
            return False
        arrays = ('coord_x', 'coord_y', 'x_grid', 'y_grid')
        return all(np.array_equal(getattr(self, a), getattr(other, a)) for a in arrays)
'''), (V, '''        return (
            isinstance(other, type(self)) and self._mesh == other._mesh
            and np.array_equal(self.vx, other.vx) and np.array_equal(self.vy, other.vy)
        )
''', '''        if isinstance(other, type(self)) and other.mesh == self.mesh:
            return bool((self.vx == other.vx).all() and (self.vy == other.vy).all())
        return False
'''), (V, '''        self.vx = vx if vx is not None else np.zeros(self.mesh.x_shape)
        self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
''', '''        if vx is None:
            vx = np.zeros_like(mesh.x_grid)
        if vy is None:
            vy = np.zeros_like(mesh.y_grid)
        self.vx, self.vy = vx, vy
'''), (V, '''        return VectorField(self.mesh, self.vx * sx, self.vy * sy)
''', '''        return VectorField(self._mesh, np.multiply(self.vx, sx), np.multiply(self.vy, sy))
'''), (V, '''        return VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))
''', '''        return type(self)(self.mesh, self.vx.copy(), np.array(self.vy))
''')]),
dict(id='curve-offset-loop', edits=[(M, '''        points = [(cp.l, cp.c, cp.r) for cp in transformed.control_points]
        points = [pt for pts in points for pt in pts]
        if polygon_area(points) < 0:
            x_cps = [cp.reversed() for cp in reversed(transformed.control_points)]
        else:
            x_cps = transformed.control_points
''', '''        points = list(itertools.chain.from_iterable((cp.l, cp.c, cp.r) for cp in transformed.control_points))
        clockwise = polygon_area(points) < 0
        x_cps = list(map(ControlPoint.reversed, transformed.control_points[::-1])) if clockwise else transformed.control_points
'''), (M, '''        for cl, cm, cr in iter_rotate(x_cps, 3, -1):
            a, b, c, d, e = cl.r, cm.l, cm.c, cm.r, cr.l
            ab = a-b
            cb = c-b        # also -cm.dl
            bo = self.offset_pt(ab, b, cb, offset)
            co = self.offset_pt(cm.dl, cm.c, cm.dr, offset)
            cd = c-d
            ed = e-d
            do = self.offset_pt(cd, d, ed, offset)
            cps.append(ControlPoint(co, bo-co, do-co, cm.kind))
''', '''        for idx, cm in enumerate(x_cps):
            before = x_cps[idx - 1].r
            after = x_cps[(idx + 1) % len(x_cps)].l
            left, mid, right = (
                self.offset_pt(prev - at, at, follow - at, offset)
                for prev, at, follow in ((before, cm.l, cm.c), (cm.l, cm.c, cm.r), (cm.c, cm.r, after)))
            cps.append(ControlPoint(mid, left - mid, right - mid, cm.kind))
'''), (M, '''import math
''', '''import itertools
import math
''')]),
dict(id='curve-state', edits=[(M, '''        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp, ocp in zip(self.control_points, other.control_points):
                cp.restore(ocp)
        else:
            msg = 'ElemCurve.restore: self=%d other=%d' % (len(self.control_points), len(other.control_points))
            raise GeomInternalError(msg)
''', '''        mine, theirs = map(len, (self.control_points, other.control_points))
        if mine != theirs:
            raise GeomInternalError(f'ElemCurve.restore: self={mine} other={theirs}')
        for idx in range(mine):
            self.control_points[idx].restore(other.control_points[idx])
        super(ElemCurve, self).restore(other)
'''), (M, '''        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            cps = [cp.transform(matrix) for cp in self.control_points]
            return ElemCurve(self.name, self.penbrush, cps, self.closed, None)

    def self_intersect''', '''        def build():
            return self.__class__(name=self.name, penbrush=self.penbrush, closed=self.closed,
                                  control_points=self.control_points_transformed(matrix))

        with matrix.push() as total:
            if self.xform:
                total.compose(self.xform)
            return build()

    def self_intersect'''), (M, '''        bb = self.control_points[0].bbox()
        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb

    def bbox_int_update(self, bbox: BBox, context=None):
        """Update shape based on changes to bounding box, resize/scale/translate as needed"""
        raise ValueError("Can't bbox_update a curve yet")
''', '''        first, *rest = (cp.bbox() for cp in self.control_points)
        return functools.reduce(lambda a, b: a + b, rest, first)

    def bbox_int_update(self, bbox: BBox, context=None):
        """Update shape based on changes to bounding box, resize/scale/translate as needed"""
        raise ValueError("Can't bbox_update a curve yet")
'''), (M, '''import math
''', '''import functools
import math
''')]),
dict(id='curve-paths-while', edits=[(M, '''            if self.closed:
                extra = control_points  # Loop back to start
            else:
                extra = []  # Ignore start
            pts = []  # list(self.control_points[0].c.xy())
            skip = 0
            for p, q in zip(control_points, control_points[1:] + extra):
                bez_pts = bez([p.c, p.r, q.l, q.c], steps=segments)
                pts.extend(bez_pts[skip:])
                skip = 2  # Skip first point going forward, as it is same as last point
''', '''            count = len(control_points)
            pts = []
            idx = 0
            while idx < (count if self.closed else count - 1):
                p, q = control_points[idx], control_points[(idx + 1) % count]
                flat = bez([p.c, p.r, q.l, q.c], steps=segments)
                pts += flat if idx == 0 else flat[2:]   # first point is same as last point
                idx += 1
'''), (M, '''        left = (dists[-1][1]) % len(cps)
        right = (left + 1) % len(cps)
''', '''        longest, left = max(dists)
        right = 0 if left == orig_len - 1 else left + 1
'''), (M, '''            dists = dists[:-1]      # Open curves have no segment from last to first
        dists = sorted(dists)
''', '''            del dists[-1]      # Open curves have no segment from last to first
''')]),
dict(id='elem-bbox-corners', edits=[(M, '''        bb = self.bbox_int()
        b1 = BBox(self.xform.transform_pt(bb.pll), self.xform.transform_pt(bb.phh))
        b2 = BBox(self.xform.transform_pt(bb.plh), self.xform.transform_pt(bb.phl))
        return b1 + b2
''', '''        inner = self.bbox_int()
        outer = BBox(None)
        for corner in (inner.pll, inner.plh, inner.phl, inner.phh):
            outer.grow(self.xform.transform_pt(corner))
        return outer
'''), (M, '''        self.name = name or ''
        self.penbrush = penbrush
        self.closed = closed
        self.xform: Transform = xform or Transform()
        if self.penbrush.filled:
            assert self.closed
''', '''        if penbrush.filled:
            assert closed
        vars(self).update(name=name or '', penbrush=penbrush, closed=closed)
        self.xform: Transform = Transform() if not xform else xform
'''), (M, '''        return type(self) is type(other) and self.name == other.name \\
            and self.penbrush == other.penbrush and self.closed == other.closed \\
            and self.xform == other.xform
''', '''        if type(other) is not type(self):
            return False
        base = ('name', 'penbrush', 'closed', 'xform')
        return [getattr(self, k) for k in base] == [getattr(other, k) for k in base]
''')]),
dict(id='line-closest', edits=[(G, '''        to_point = point - self.origin
        d_unit = self.direction.unit()
        dot = to_point.dot(d_unit)
        return self.origin + d_unit*dot
''', '''        along = self.direction
        t = (point - self.origin).dot(along) / along.dot(along)
        return self.origin + along * t
'''), (G, '''        normal = self.direction.normal()
        t_other = normal.dot(self.origin-other.origin) / normal.dot(other.direction)
        return other.origin + other.direction*t_other

    def segment_bbox''', '''        between = other.origin - self.origin
        t_self = between.cross(other.direction) / self.direction.cross(other.direction)
        return self.origin + self.direction * t_self

    def segment_bbox'''), (G, '''        return sum(a.x*b.y - a.y*b.x for a, b in iter_rotate(points))/2
'''.replace('        return', '    return'), '''    total = 0
    prev = None
    for pt in [*points, *points[:1]]:
        if prev is not None:
            total += (prev.x * pt.y - pt.x * prev.y) / 2
        prev = pt
    return total
'''), (G, '''        expand_y = expand_x if expand_y is None else expand_y
        expand_x = max(expand_x, -self.width/2)
        expand_y = max(expand_y, -self.height/2)
        return BBox(self.xl-expand_x, self.yl-expand_y, self.xh+expand_x, self.yh+expand_y)
''', '''        if expand_y is None:
            expand_y = expand_x
        dx = expand_x if expand_x > -self.width/2 else -self.width/2
        dy = expand_y if expand_y > -self.height/2 else -self.height/2
        return BBox(self.p1 - Vector(dx, dy), self.p2 + Vector(dx, dy))
''')]),
dict(id='point-slots', edits=[(G, '''        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
''', '''        delta = (a - b for a, b in zip(self, other.xy()))
        if isinstance(other, Vector):
            return Point(*delta)
        return Vector(*delta)
'''), (G, '''        return (
            super().__eq__(other) and
            self.dx == other.dx and self.dy == other.dy and
            self.base == other.base
        )
''', '''        if not super().__eq__(other):
            return False
        return (self.dx, self.dy, self.base) == (other.dx, other.dy, other.base)
'''), (G, '''        base_x, base_y = self.base.base.xy()
        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y
''', '''        rel = self.base
        origin = rel.base
        return tuple(self.scale * d + o for d, o in zip((rel.dx, rel.dy), origin.xy()))
'''), (G, '''        out = []
        it = iter(pts)
        for a in it:
            if isinstance(a, Number):
                try:
                    y = next(it)
                except StopIteration:
                    raise ValueError('Missing y value for x=%r' % a)
                if not isinstance(y, Number):
                    raise ValueError('y value for x=%s must be a number' % repr(a))
                val = (a, y)
            elif isinstance(a, BasePoint):
                val = a
            elif isinstance(a, tuple):
                if allow_thruples:
                    if not len(a) in {2, 3}:
                        raise ValueError('tuples must be x,y or x,y,a, not %s' % repr(a))
                elif len(a) != 2:
                    raise ValueError('tuples must be x,y, not %s' % repr(a))
                val = a
            else:
                raise ValueError('Expected x,y or (x,y) or Point, not %s' % repr(a))
            out.append(val)
        return out
''', '''        missing = object()
        sizes = (2, 3) if allow_thruples else (2,)

        def items():
            it = iter(pts)
            for a in it:
                if isinstance(a, BasePoint):
                    yield a
                elif isinstance(a, tuple):
                    if len(a) not in sizes:
                        kinds = 'x,y or x,y,a' if allow_thruples else 'x,y'
                        raise ValueError('tuples must be %s, not %s' % (kinds, repr(a)))
                    yield a
                elif isinstance(a, Number):
                    y = next(it, missing)
                    if y is missing:
                        raise ValueError('Missing y value for x=%r' % a)
                    if not isinstance(y, Number):
                        raise ValueError('y value for x=%s must be a number' % repr(a))
                    yield a, y
                else:
                    raise ValueError('Expected x,y or (x,y) or Point, not %s' % repr(a))

        return list(items())
''')]),
]
