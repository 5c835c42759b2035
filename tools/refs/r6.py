G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
A = 'x7/geom/anim.py'; V = 'x7/geom/vec_field.py'; D = 'x7/geom/drawing.py'; S = 'x7/geom/anim_simple.py'; TS = 'x7/geom/testing.py'
REFS = [
dict(id='r6-anim-point', edits=[
 (A, '''        orig_x, orig_y = self.orig.xy()
        targ_x, targ_y = self.target.xy()
        tx, ty = t if isinstance(t, tuple) else (t, t)
        sx, sy = 1 - tx, 1 - ty
        self.point.setxy(sx * orig_x + tx * targ_x, sy * orig_y + ty * targ_y)''', '''        both = t if isinstance(t, tuple) else (t,) * 2
        self.point.setxy(*(o * (1 - u) + g * u for o, g, u in zip(self.orig, self.target, both)))'''),
 (A, '''        t = (1.0 - cos(t * tau * self.frequency + self.offset * tau / 360)) * 0.5
        ox, oy = self.orig.xy()
        tx, ty = self.target.xy()
        s = 1 - t
        self.point.setxy(s * ox + t * tx, s * oy + t * ty)''', '''        phase = tau * (t * self.frequency + self.offset / 360)
        share = 0.5 - cos(phase) / 2
        self.point.set(self.orig + share * (self.target - self.orig))'''),
 (A, '''        ox, oy = self.orig.xy()
        theta = t * tau * self.frequency + self.offset
        self.point.setxy(ox + self.radius * sin(theta), oy + self.radius * cos(theta))''', '''        theta = t * tau * self.frequency + self.offset
        spoke = Vector(sin(theta), cos(theta)) * self.radius
        self.point.set(self.orig + spoke)'''),
 (A, '''            if val < threshold:
                return None
            else:
                return val''', '''            return val if val >= threshold else None'''),
 (A, '''            if isinstance(t, tuple):
                tx, ty = t
                return np.interp(tx, time, value), np.interp(ty, time, value)
            else:
                return np.interp(t, time, value)''', '''            if not isinstance(t, tuple):
                return at(t)
            x, y = map(at, t)
            return x, y'''),
 (A, '''        value = np.array(value, dtype=float)

        def func(t):''', '''        value = np.array(value, dtype=float)
        at = functools.partial(np.interp, xp=time, fp=value)

        def func(t):'''),
 (A, 'import numpy as np\n', 'import numpy as np\nimport functools\n'),
 (A, '''        offset = radians(offset)

        def func(t):
            t = tau * frequency * t + offset
            return trig_func(t) * scale + shift''', '''        def func(t, start=radians(offset)):
            return trig_func(tau * frequency * t + start) * scale + shift'''),
 (A, '''        offset = radians(offset)

        def func(t):
            t = tau * frequency * t + offset
            return sin(t) * scale + shift, cos(t) * scale + shift

        return func''', '''        waves = [Animation.periodic(wave, frequency, offset, scale, shift) for wave in (sin, cos)]
        return lambda t: tuple(wave(t) for wave in waves)''')]),
dict(id='r6-morph', edits=[
 (A, '''        if t is None:
            # Hidden hack--just move off-screen
            for morph in morph_cp:
                morph.c.setxy(1e6, 1e6)
                morph.dl.setxy(0, 0)
                morph.dr.setxy(0, 0)
            return

        for morph, orig, target in zip(morph_cp, orig_cp, target_cp):
            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                # print(' mot=', m, o, tgt)
                m.setxy(*(o + t * (tgt - o)).xy())''', '''        if t is None:
            return off_screen(morph_cp)

        for idx, morph in enumerate(morph_cp):
            for m, o, tgt in zip(pts(morph), pts(orig_cp[idx]), pts(target_cp[idx])):
                delta = tgt - o
                m.set(o + delta * t)'''),
 (A, '''            # Hidden hack--just move off-screen
            for morph_cp in morph_cps:
                morph_cp.c.setxy(1e6, 1e6)
                morph_cp.dl.setxy(0, 0)
                morph_cp.dr.setxy(0, 0)
            return
''', '''            return off_screen(morph_cps)
'''), (A, '''class Morph(Animation):
''', '''def off_screen(cps):
    """Hidden hack--just move off-screen"""
    for cp in cps:
        cp.c.setxy(1e6, 1e6)
        for handle in cp.dl, cp.dr:
            handle.setxy(0, 0)


class Morph(Animation):
'''), (A, '''        idx = bisect.bisect_right(self.all_steps, t)
        if idx == 0:
            low_c = self.all_curves[0]
            high_c = low_c
        elif idx >= len(self.all_curves):
            low_c = self.all_curves[-1]
            high_c = low_c
        else:''', '''        idx = sum(step <= t for step in self.all_steps)
        if idx in (0, len(self.all_curves)):
            low_c = high_c = self.all_curves[0 if idx == 0 else -1]
        else:'''),
 (A, '''                dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
                ll = dists[0][1]
                old_len = len(c.control_points)
                c.control_points = c.control_points[ll:] + c.control_points[:ll]
                assert old_len == len(c.control_points)''', '''                dists = [(bbox.p1-cp.c).length() for cp in c.control_points]
                ll = dists.index(min(dists))
                cps = c.control_points
                c.control_points = [cps[(ll + i) % len(cps)] for i in range(len(cps))]'''),
 (A, '''            while len(source.control_points) < len(target.control_points):
                source.add_one()
            while len(target.control_points) < len(source.control_points):
                target.add_one()''', '''            for shorter, longer in ((source, target), (target, source)):
                missing = len(longer.control_points) - len(shorter.control_points)
                for _ in range(missing):
                    shorter.add_one()'''),
 (A, '''        for animation in self.animations:
            animation.update(t)''', '''        animations = iter(self.animations)
        while (animation := next(animations, None)) is not None:
            animation.update(t)''')]),
dict(id='r6-holes', edits=[
 (M, '''            if fill_brush.brush:
                fill_path = Path(fill_brush, edges[0].closed, edges[0].points)
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=True)
                    edges.extend(paths)
                return [fill_path] + edges
            else:
                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                    edges.extend(paths)
                return edges''', '''            filled = []
            if fill_brush.brush:
                filled.append(Path(fill_brush, edges[0].closed, edges[0].points))
            for elem in self.inside:
                for path in elem.paths(dc):
                    path.penbrush = edge_brush
                    for fill_path in filled:
                        fill_path.extend(path.points, closed=True)
                    edges.append(path)
            return filled + edges'''),
 (M, '''        if debug and self.inside:
            bbox_inside = BBox(None)
            for elem in self.inside:
                bbox_inside = bbox_inside + elem.bbox()
            assert bbox_outside.contains(bbox_inside)
        return bbox_outside''', '''        if debug and self.inside:
            assert bbox_outside.contains(sum((elem.bbox() for elem in self.inside), BBox(None)))
        return bbox_outside'''),
 (M, '''            yield from self.outside.iter_elems(base + '.outside', matrix)
            for elem in self.inside:
                yield from elem.iter_elems(base + '.inside', matrix)''', '''            parts = [('outside', self.outside)] + [('inside', elem) for elem in self.inside]
            for where, elem in parts:
                yield from elem.iter_elems('%s.%s' % (base, where), matrix)'''),
 (M, '''            xf = self.outside.transform(matrix)
            xf.name = base+'.outside.'+xf.name
            yield xf
            for elem in self.inside:
                xf = elem.transform(matrix)
                xf.name = base+'.inside.'+xf.name
                yield xf''', '''            for elem in [self.outside, *self.inside]:
                where = 'outside' if elem is self.outside else 'inside'
                xf = elem.transform(matrix)
                xf.name = '.'.join([base, where, xf.name])
                yield xf'''),
 (M, '''        self.name = other.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.xform = other.xform.copy()
        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]''', '''        super().restore(other)
        self.outside, *self.inside = [e.copy() for e in (other.outside, *other.inside)]'''),
 (M, '''        xform = matrix.copy().compose(self.xform)
        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside], self.closed, xform.copy())''', '''        dup = self.copy()
        dup.xform.compose_outer(matrix)
        return dup''')]),
dict(id='r6-group', edits=[
 (M, '''                num = 0
                while (name_try := '%s#%d' % (name, num)) in self.elems:
                    num += 1
                name = name_try
''', '''                name = next(unused_name for unused_name in ('%s#%d' % (name, num) for num in itertools.count())
                            if unused_name not in self.elems)
'''), (M, 'import math\n', 'import itertools\nimport math\n'),
 (M, '''            root = root + '.' + self.name if root else self.name
            for elem in self.elems.values():
                xf = elem.transform(matrix)
                xf.name = root + '.' + xf.name
                yield xf''', '''            prefix = '.'.join([root, self.name] if root else [self.name])
            for xf in (elem.transform(matrix) for elem in self.elems.values()):
                xf.name = f'{prefix}.{xf.name}'
                yield xf'''),
 (M, '''        if head not in self.elems:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
        item = self.elems[head]
        if tail:
            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail)
            else:
                raise ValueError('no sub-group found for %r' % tail)
        else:
            return item''', '''        item = self.elems.get(head)
        if item is None:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems)))
        if not tail:
            return item
        if not isinstance(item, (Group, ElemWithHoles)):
            raise ValueError('no sub-group found for %r' % tail)
        return item.lookup(tail)'''),
 (M, '''                self.elems = dict(
                    (replacement.name, replacement) if n == name else (n, other) for n, other in self.elems.items())
                count += 1''', '''                renamed = {}
                for n, other in self.elems.items():
                    if n == name:
                        renamed[replacement.name] = replacement
                    else:
                        renamed[n] = other
                self.elems = renamed
                count += 1'''),
 (M, '''        if isinstance(shape_kind, PenBrush):
            penbrush = shape_kind
        else:
            shape_kind = shape_kind or self.default_shape_kind
            penbrush = self.pens_by_shape[shape_kind]
        closed = penbrush.filled if closed is None else closed

        e = elem_class(name, penbrush=penbrush, closed=closed, **kwargs)
        self.add(name, e)
        return e''', '''        penbrush = self._resolve(shape_kind)
        kwargs.update(penbrush=penbrush, closed=penbrush.filled if closed is None else closed)
        e = elem_class(name, **kwargs)
        self.add(name, e)
        return e

    def _resolve(self, shape_kind) -> PenBrush:
        if isinstance(shape_kind, PenBrush):
            return shape_kind
        return self.pens_by_shape[shape_kind or self.default_shape_kind]'''),
 (M, '''        bbox = elem.bbox()
        center = bbox.center
        # print('%s.rotate_about(%s, %s)' % (elem.name, angle, center))
        new = elem.transform(Transform().rotate_about(angle, center))''', '''        center = elem.center()
        turn = Transform()
        turn.rotate_about(angle, center)
        new = elem.transform(turn)'''),
 (M, '''        context = context or DumpContext()
        extra = {}
        if self.hidden:
            extra['hidden'] = self.hidden
        if self.points:
            extra['points'] = self.points
        self.dump_elem(context, **extra, elems=list)''', '''        context = context or DumpContext()
        extra = {key: val for key in ('hidden', 'points') if (val := getattr(self, key))}
        self.dump_elem(context, **dict(extra, elems=list))''')]),
]
