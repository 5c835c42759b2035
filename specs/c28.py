"""C28: a vector field is what its vectors say, and deriving one from another keeps to what the derivation says."""
from specs.prelude import *
from x7.geom.vec_field import VectorField, Mesh
import numpy as np


def box():
    x, y = real('m.x'), real('m.y')
    return BBox(x, y, x + pos('m.w'), y + pos('m.h'))


def grid(k, n, kind='real'):
    if kind == 'real':
        return np.array([[real('%s%d%d' % (k, i, j)) for j in range(n)] for i in range(n)])
    return np.array([[pos('%s%d%d' % (k, i, j)) for j in range(n)] for i in range(n)])


def field(n=2, kind='real'):
    return VectorField(Mesh(box(), n), grid('vx', n, kind), grid('vy', n, kind))


def vectors(f):
    n = f.mesh.steps
    return [[(f.vx[i, j], f.vy[i, j]) for j in range(n)] for i in range(n)]


# ---------------------------------------------------------------------- meshes
def case_mesh(n=(2, 3, 4, 5, 11)):
    """evenly spaced from corner to corner"""
    b = box()
    m = Mesh(b, n)
    same((m.bbox, m.steps, tuple(m.x_shape)), (box(), n, (n, n)), 'box and steps')
    xs, ys = list(m.coord_x), list(m.coord_y)
    same((len(xs), len(ys)), (n, n), 'steps coordinates each way')
    for i in range(n):
        same(xs[i], b.xl + (b.xh - b.xl) * i / (n - 1), 'evenly spaced across')
        same(ys[i], b.yl + (b.yh - b.yl) * i / (n - 1), 'evenly spaced up')
    for i in range(n):
        for j in range(n):
            same((m.x_grid[i, j], m.y_grid[i, j]), (xs[j], ys[i]), 'the grid has every pair of coordinates')


def case_mesh_default():
    same(Mesh(box()).steps, 21, '21 steps if not said otherwise')
    same(len(Mesh(BBox(0, 0, 1, 1)).coord_x), 21, '21 coordinates')


def case_mesh_equal(what=('same', 'xl', 'yl', 'xh', 'yh', 'steps', 'other')):
    m = Mesh(BBox(0, 0, 10, 20), 3)
    o = {'same': lambda: Mesh(BBox(0, 0, 10, 20), 3), 'xl': lambda: Mesh(BBox(-pos('k'), 0, 10, 20), 3), 'yl': lambda: Mesh(BBox(0, -pos('k'), 10, 20), 3),
         'xh': lambda: Mesh(BBox(0, 0, 10 + pos('k'), 20), 3), 'yh': lambda: Mesh(BBox(0, 0, 10, 20 + pos('k')), 3),
         'steps': lambda: Mesh(BBox(0, 0, 10, 20), 4), 'other': lambda: BBox(0, 0, 10, 20)}[what]()
    same((m == o, m != o), (what == 'same', what != 'same'), 'equal exactly when box and steps are')


def case_zeros(n=(2, 3)):
    m = Mesh(box(), n)
    f, x, y = m.zeros(), real('x'), real('y')
    check(type(f) is VectorField and f.mesh is m, 'a field over the mesh')
    same(vectors(f), [[(0, 0)] * n for i in range(n)], 'every vector is zero')
    same(f.transform(x, y), (x, y), 'moving nothing')


def case_uniform(n=(2, 3)):
    k = nonneg('k')
    m = Mesh(box(), n)
    f = m.uniform(k)
    check(type(f) is VectorField and f.mesh is m, 'a field over the mesh')
    seen = []
    for row in vectors(f):
        for u, v in row:
            check(-k <= u and u <= k, 'across within the magnitude')
            check(-k <= v and v <= k, 'up within the magnitude')
            seen += [u, v]
    for i in range(len(seen)):
        for j in range(i):
            live(seen[i] != seen[j], 'drawn one by one')


# ---------------------------------------------------------------------- lookup
def case_nodes(n=(2, 3, 7), via=('lookup', 'transform', 'list')):
    """at a node of the mesh the field is the vector stored there"""
    f = field(n)
    m = f.mesh
    for i in range(n):
        for j in range(n):
            x, y = m.coord_x[i], m.coord_y[j]
            u, v = f.vx[i, j], f.vy[i, j]
            if via == 'lookup':
                same(f.lookup(x, y), (u, v), 'the vector stored there')
            elif via == 'transform':
                same(f.transform(x, y), (x + u, y + v), 'moved by the vector stored there')
            else:
                same(f.transform_pts([(x, y), (x, y)]), [(x + u, y + v)] * 2, 'moved by the vector stored there')


def case_transform_is_lookup():
    f, x, y = field(), real('x'), real('y')
    u, v = f.lookup(x, y)
    same(f.transform(x, y), (x + u, y + v), 'moved by what lookup says')
    check(not f.LINEAR, 'not a linear map')


def case_outside(n=(2, 3), side=('left', 'right', 'both', 'inside')):
    """between the nodes straight along each axis, beyond the box as in the outermost cell"""
    f = field(n)
    m = f.mesh
    i = 0 if side in ('left', 'inside') else n - 2
    w, h = m.coord_x[1] - m.coord_x[0], m.coord_y[1] - m.coord_y[0]
    s, t = {'left': (-nonneg('s'), unit('t')), 'right': (pos('s'), 1 + nonneg('t')), 'both': (1 + nonneg('s'), 1 + nonneg('t')),
            'inside': (unit('s'), unit('t'))}[side]

    def between(v):
        return ((1 - s) * (1 - t) * v[i, i] + s * (1 - t) * v[i + 1, i] + (1 - s) * t * v[i, i + 1] + s * t * v[i + 1, i + 1])
    same(f.lookup(m.coord_x[i] + s * w, m.coord_y[i] + t * h), (between(f.vx), between(f.vy)), 'straight between neighbours')


def case_lookup_uses_both():
    """horizontal and vertical parts do not mix"""
    f, x, y = field(), real('x'), real('y')
    g = VectorField(f.mesh, f.vy, f.vx)
    u, v = f.lookup(x, y)
    same(g.lookup(x, y), (v, u), 'exchanging the parts exchanges the result')


def case_lookup_linear():
    f, x, y, k = field(), real('x'), real('y'), real('k')
    u, v = f.lookup(x, y)
    same(f.scaled(k).lookup(x, y), (k * u, k * v), 'a scaled field is scaled everywhere')
    g = VectorField(f.mesh, grid('wx', 2), grid('wy', 2))
    p, q = g.lookup(x, y)
    same(VectorField(f.mesh, f.vx + g.vx, f.vy + g.vy).lookup(x, y), (u + p, v + q), 'the sum of two fields is the sum everywhere')
    c, d = real('c'), real('d')
    h = VectorField(f.mesh, f.vx * 0 + c, f.vy * 0 + d)
    same(h.lookup(x, y), (c, d), 'a constant field is constant everywhere, outside the box too')


def case_lookup_fresh(how=('copy', 'scaled', 'normalized', 'smoothed')):
    """what a field is derived from has no say in where it takes points"""
    f = field(2, 'pos')
    f.lookup(real('x'), real('y'))
    g = {'copy': lambda: f.copy(), 'scaled': lambda: f.scaled(2), 'normalized': lambda: f.normalized(), 'smoothed': lambda: f.smoothed()}[how]()
    m = g.mesh
    same(g.lookup(m.coord_x[1], m.coord_y[0]), (g.vx[1, 0], g.vy[1, 0]), 'its own vectors')
    g.vx[0, 1] = real('new')
    same(g.lookup(m.coord_x[0], m.coord_y[1]), (real('new'), g.vy[0, 1]), 'its own vectors, changed')
    same(f.lookup(m.coord_x[0], m.coord_y[1]), (f.vx[0, 1], f.vy[0, 1]), 'the original has its own')


# ---------------------------------------------------------------------- deriving
def case_scaled(n=(1, 2, 3, 6), by=('both', 'one', 'zero', 'none')):
    f, a, b = field(n), real('a'), real('b')
    before = observe(f)
    g = {'both': lambda: f.scaled(a, b), 'one': lambda: f.scaled(a), 'zero': lambda: f.scaled(a, 0), 'none': lambda: f.scaled(a, None)}[by]()
    b = {'both': b, 'one': a, 'zero': 0, 'none': a}[by]
    same(vectors(g), [[(u * a, v * b) for u, v in row] for row in vectors(f)], 'every vector is scaled')
    check(g.mesh is f.mesh, 'over the same mesh')
    same(observe(f), before, 'the field itself stays')


FACTORS = {'ones': (1, 1), 'one': (1,), 'x kept': (1, 2), 'y kept': (2, 1), 'floats': (1.0, 1.0), 'zeros': (0, 0), 'turned': (-1, -1), 'x none': (0, 1), 'y none': (1, 0),
           'mixed': (1, None)}


def case_scaled_after_lookup(by=tuple(FACTORS), kind=('any', 'zero')):
    """a field that was in use is scaled to a field that looks up its own vectors"""
    f = field(2) if kind == 'any' else Mesh(BBox(0, 0, pos('mw'), pos('mh')), 2).zeros()
    m = f.mesh
    f.lookup(m.coord_x[0], m.coord_y[0])
    g = f.scaled(*FACTORS[by])
    old = f.lookup(m.coord_x[0], m.coord_y[0])
    g.vx[0, 0] = real('new')
    same(g.lookup(m.coord_x[0], m.coord_y[0]), (real('new'), g.vy[0, 0]), 'its own vectors')
    same(f.lookup(m.coord_x[0], m.coord_y[0]), old, 'and the first field its own')


def case_scaled_by(by=tuple(FACTORS), n=(1, 2)):
    """also by factors that change little, a scaled field is a field of its own"""
    f = field(n)
    was = vectors(f)
    g = f.scaled(*FACTORS[by])
    a = FACTORS[by][0]
    b = FACTORS[by][1] if len(FACTORS[by]) > 1 and FACTORS[by][1] is not None else a
    same(vectors(g), [[(u * a, v * b) for u, v in row] for row in was], 'every vector is scaled')
    check(g is not f and g.mesh is f.mesh, 'another field over the same mesh')
    g.vx[0, 0] = g.vy[n - 1, n - 1] = real('new')
    same(vectors(f), was, 'which has its own vectors')
    f.vx[0, 0] = f.vy[0, 0] = real('later')
    same((g.vx[0, 0], g.vy[n - 1, n - 1]), (real('new'), real('new')), 'either way')


def case_given_parts(n=(1, 2, 3), given=('x', 'y', 'both', 'none')):
    """what is not given is nothing, what is given is kept"""
    vx, vy = (grid('vx', n) if given in ('x', 'both') else None), (grid('vy', n) if given in ('y', 'both') else None)
    m = Mesh(BBox(0, 0, 10, 20), n)
    for f in (VectorField(m, vx, vy), VectorField(m, vx=vx, vy=vy)):
        for i in range(n):
            for j in range(n):
                same(f.vx[i, j], vx[i, j] if vx is not None else 0, 'the x parts as given')
                same(f.vy[i, j], vy[i, j] if vy is not None else 0, 'the y parts as given')
        check(f.mesh is m, 'the mesh as given')
    f = VectorField(m, vx, vy)
    if given in ('none', 'x', 'y'):
        f.vx[0, 0] = 5
        f.vy[0, 0] = 7
        same((f.vx[0, 0], f.vy[0, 0]), (5, 7), 'parts do not share')


def case_copy(n=(1, 2, 3, 6)):
    f = field(n)
    g = f.copy()
    same((vectors(g), g.mesh), (vectors(f), f.mesh), 'the same vectors over the same mesh')
    check(g == f and f == g, 'equal')
    was = vectors(f)
    g.vx[0, 0] = g.vy[n - 1, n - 1] = real('new')
    same(vectors(f), was, 'with its own vectors')


def case_equal(what=('vx', 'vy', 'mesh', 'steps', 'other', 'mesh_same')):
    f = VectorField(Mesh(BBox(0, 0, 10, 20), 2), grid('vx', 2), grid('vy', 2))
    g = f.copy()
    k = nonzero('k')
    if what == 'vx':
        g.vx[1, 0] = g.vx[1, 0] + k
    elif what == 'vy':
        g.vy[0, 1] = g.vy[0, 1] + k
    elif what == 'mesh':
        g = VectorField(Mesh(BBox(0, 0, 10, 20 + pos('p')), 2), f.vx, f.vy)
    elif what == 'steps':
        g = VectorField(Mesh(BBox(0, 0, 10, 20), 3), grid('vx', 3), grid('vy', 3))
    elif what == 'mesh_same':
        g = VectorField(Mesh(BBox(0, 0, 10, 20), 2), f.vx, f.vy)
    else:
        g = f.mesh
    same((f == g, g == f, f != g), (what == 'mesh_same', what == 'mesh_same', what != 'mesh_same'), 'equal exactly when mesh and vectors are')


def case_normalized(n=(1,), kind=('real', 'pos')):
    """the longest vector gets length one, all keep their directions and proportions"""
    f = field(n, kind)
    assume(f.vx[0, 0] > 0)
    a = [v for row in vectors(f) for v in row]
    for u, v in a[1:]:
        assume(u * u + v * v <= a[0][0] * a[0][0] + a[0][1] * a[0][1])
    before = observe(f)
    g = f.normalized()
    check(g.mesh is f.mesh, 'over the same mesh')
    b = [v for row in vectors(g) for v in row]
    most = a[0][0] * a[0][0] + a[0][1] * a[0][1]
    for (u, v), (p, q) in zip(a, b):
        same((p * p * most, q * q * most), (u * u, v * v), 'every vector divided by the longest length')
        check(p * u >= 0, 'the side across is kept')
        check(q * v >= 0, 'the side up is kept')
    same(observe(f), before, 'the field itself stays')


def case_normalized_known():
    f = VectorField(Mesh(box(), 2), np.array([[3.0, 0], [0, 0]]), np.array([[4.0, 1], [-5, 2]]))
    k = pos('k')
    same(vectors(f.scaled(k).normalized()), vectors(f.normalized()), 'the scale of the field does not matter')
    same(vectors(f.normalized()), [[(3 / 5, 4 / 5), (0, 1 / 5)], [(0, -1), (0, 2 / 5)]], 'divided by the longest length')


def case_smoothed_constant(n=(1, 2, 3, 5)):
    """a field that is the same everywhere has nothing to smooth"""
    m = Mesh(box(), n)
    k = pos('k')
    f = VectorField(m, np.full((n, n), 3) * k, np.full((n, n), -4) * k)
    g = f.smoothed()
    check(g.mesh is m, 'over the same mesh')
    same(vectors(g), [[(3 / 5, -4 / 5)] * n] * n, 'the same direction everywhere, of length one')


def pulse(n, i, j, u, v):
    vx, vy = np.zeros((n, n)), np.zeros((n, n))
    vx[i, j], vy[i, j] = u, v
    return VectorField(Mesh(BBox(0, 0, 1, 1), n), vx, vy)


def case_smoothed_pulse(n=(3, 6), at=((0, 0), (1, 1), (2, 1), (5, 0), (0, 5), (5, 5), (3, 5), (4, 1)), parts=((3, 4), (-4, 3), (5, 0), (0, -5))):
    """a single vector stays the longest, and spreads with its direction to neighbours only"""
    i, j = at
    if i >= n or j >= n:
        return
    f = pulse(n, i, j, *parts)
    before = observe(f)
    g = f.smoothed()
    same(observe(f), before, 'the field itself stays')
    got = vectors(g)
    top = got[i][j][0] ** 2 + got[i][j][1] ** 2
    for a in range(n):
        for b in range(n):
            u, v = got[a][b]
            same(u * parts[1], v * parts[0], 'the direction is kept')
            check(u * parts[0] + v * parts[1] >= 0, 'not turned around')
            if abs(a - i) > 2 or abs(b - j) > 2:
                same((u, v), (0, 0), 'far away nothing is there')
            elif abs(a - i) <= 1 and abs(b - j) <= 1:
                check((u, v) != (0, 0), 'next to it something is there')
                check(u * u + v * v <= top, 'no vector is longer')
    same(max([u * u + v * v for row in got for u, v in row]), 1, 'the longest has length one')
    check(top * 25 >= 16, 'it stays where it is')


def case_smoothed_scale(n=(2, 3)):
    f = VectorField(Mesh(BBox(0, 0, 1, 1), n), np.array([[1 + i * j for j in range(n)] for i in range(n)]) * 1.0,
                    np.array([[i - j for j in range(n)] for i in range(n)]) * 1.0)
    k = pos('k')
    same(vectors(f.scaled(k).smoothed()), vectors(f.smoothed()), 'the scale of the field does not matter')
    g = VectorField(f.mesh, f.vy, f.vx)
    same([[(v, u) for u, v in row] for row in vectors(g.smoothed())], vectors(f.smoothed()), 'both parts are treated alike')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c12': ('field_zero', 'field_adds', 'field_nodes', 'field_scaled', 'field_copy_maps_alike', 'field_repeat', 'mesh', 'field_smoothed'),
}
