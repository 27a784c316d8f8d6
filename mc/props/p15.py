"""Rectangle meshes: the elements tile the rectangle minus its openings."""
import itertools

import numpy as np

from .. import ops

ID = 'P15'
TITLE = 'Rectangle meshes tile exactly their area, respect control lines and leave out openings'
RULE = ('dimensions x mesh sizes x plane x origin x element type; every set of up to 2 (3) control values per direction on a grid that includes '
        'the boundaries and round-off duplicates; every opening and every pair of openings on a grid, openings added before or after control '
        'lines, and generated again after another opening was added')
ASSUMPTIONS = ['control lines and openings lie within the rectangle and some of the rectangle is left']

DIMS = [(1, 1), (4, 6), (2.5, .7), (.3, 10), (7, 3.3), (100, 144)]
SIZES = [.1, .7, 1, 2, 3, 50]
EPS = 1e-9


def cases(tier):
    th = tier != 'quick'
    out = []
    for (w, h), s in itertools.product(DIMS, SIZES):
        if w*h/s/s > (4000 if th else 600):
            continue
        for plane, typ, o in itertools.product(('XY', 'YZ', 'XZ'), ('Quad', 'Rect'), ((0, 0, 0), (3, -2, 7.5), (-1e4, 250.1, 1/3))):
            if th or (plane, typ) in (('XY', 'Quad'), ('YZ', 'Rect'), ('XZ', 'Quad')) or o[0] == 3:
                out.append(dict(w=w, h=h, s=s, plane=plane, typ=typ, o=o))
    g = [0, 6, 1, 2.5, 3, .1 + .2, .3, 3 - 1e-14, .3 - 3*.1, 5.9999]
    for k in (1, 2, 3) if th else (1, 2):
        for xc in itertools.combinations(g, k):
            for yc in ((), (1,), (2, 4), tuple(v*4/6 for v in xc)) if k < 3 else ((), (1,)):
                for s in (1, 4) if th else (1.5,):
                    out.append(dict(w=6, h=4, s=s, plane=('XY', 'YZ', 'XZ')[len(out) % 3], typ='Quad', o=(1, 2, 3), xc=xc, yc=yc))
                    if xc:
                        out.append(dict(w=4, h=6, s=s, plane=('XY', 'YZ', 'XZ')[len(out) % 3], typ='Rect', o=(1, 2, 3), xc=[v*4/6 for v in xc], yc=list(yc)[::-1]))
    # openings on a grid of 5x5 lines (4x4 cells)
    cells = [(a, b, c, d) for a, b in itertools.combinations(range(5), 2) for c, d in itertools.combinations(range(5), 2)]
    op = [(1.5*a, 1.0*c, 1.5*(b - a), 1.0*(d - c)) for a, b, c, d in cells if (b - a)*(d - c) < 16]
    for i, p in enumerate(op):
        for s in (.5, 2, 10):
            out.append(dict(w=6, h=4, s=s, plane=('XY', 'YZ', 'XZ')[i % 3], typ=('Quad', 'Rect')[i % 2], o=(1, -2, 3), op=[p]))
    for i, (p, q) in enumerate(itertools.combinations(op, 2)):
        if (th or i % 5 == 0) and left(6, 4, [p, q]):
            out.append(dict(w=6, h=4, s=(2, 10)[i % 2], plane=('XY', 'YZ', 'XZ')[i % 3], typ=('Quad', 'Rect')[i//3 % 2], o=(1, -2, 3), op=[p, q], xc=[3.3] if i % 4 == 0 else [],
                            again=i % 3))
    odd = [(.1, .1, .2, .7), (.1 + .2, .3, 1/3, .1), (5.7, 3.3, .3, .7), (.7, 0, .1, 4), (0, 1.1, 6, .3), (2/3, 2/7, 1/3, 5/7)]
    for k in (1, 2, 3):
        for c in itertools.permutations(odd, k):
            out.append(dict(w=6, h=4, s=1.3, plane=('XY', 'YZ', 'XZ')[k % 3], typ='Quad', o=(.1, 1/3, -7.7), op=list(c), again=len(out) % 3))
    out.append(dict(shared=1))
    out.append(dict(shared=2))
    return out


def left(w, h, op):
    xs = sorted({0, w} | {v for o in op for v in (o[0], o[0] + o[2])})
    ys = sorted({0, h} | {v for o in op for v in (o[1], o[1] + o[3])})
    return sum((b - a)*(d - c) for a, b in zip(xs, xs[1:]) for c, d in zip(ys, ys[1:])
               if not any(o[0] < (a + b)/2 < o[0] + o[2] and o[1] < (c + d)/2 < o[1] + o[3] for o in op)) > 1e-12*w*h


def area_left(w, h, op):
    xs = sorted({0, w} | {min(max(v, 0), w) for o in op for v in (o[0], o[0] + o[2])})
    ys = sorted({0, h} | {min(max(v, 0), h) for o in op for v in (o[1], o[1] + o[3])})
    return sum((b - a)*(d - c) for a, b in zip(xs, xs[1:]) for c, d in zip(ys, ys[1:])
               if not any(o[0] < (a + b)/2 < o[0] + o[2] and o[1] < (c + d)/2 < o[1] + o[3] for o in op))


def check(rec, key, m, mesh, w, h, s, plane, o, typ, xc=(), yc=(), op=(), t=.37, kx=.8, ky=1.3):
    tol = 1e-8*max(1, *map(abs, o), w, h)
    u = {'XY': (0, 1, 2), 'YZ': (2, 1, 0), 'XZ': (0, 2, 1)}[plane]
    loc = {}
    for n, x in mesh.nodes.items():
        p = (x.X - o[0], x.Y - o[1], x.Z - o[2])
        loc[id(x)] = (p[u[0]], p[u[1]])
        rec.true(key + ':plane', abs(p[u[2]]) < tol, 'node %s at %s is off the plane' % (n, p))
        rec.true(key + ':registered', m.nodes.get(n) is x and x.name == n, 'node %s of the mesh is not the model\'s node of that name' % n)
    reg = m.quads if typ == 'Quad' else m.plates
    cells, used = [], set()
    for n, e in mesh.elements.items():
        rec.true(key + ':element', reg.get(n) is e and e.name == n and e.type == typ, 'element %s is not registered in the model' % n)
        c = [e.i_node, e.j_node, e.m_node, e.n_node]
        used |= {id(x) for x in c}
        if not rec.true(key + ':corners', all(id(x) in loc for x in c), 'element %s is attached to a node outside the mesh' % n):
            return
        (x0, y0), (x1, y1), (x2, y2), (x3, y3) = [loc[id(x)] for x in c]
        rec.true(key + ':rectangle', max(abs(x0 - x3), abs(x1 - x2), abs(y0 - y1), abs(y2 - y3)) < tol and x1 > x0 + tol and y2 > y1 + tol,
                 'element %s has corners %s' % (n, [loc[id(x)] for x in c]))
        rec.true(key + ':size', x1 - x0 <= s*(1 + EPS) + tol and y2 - y1 <= s*(1 + EPS) + tol, 'element %s is %g x %g, mesh size %g' % (n, x1 - x0, y2 - y1, s))
        rec.true(key + ':props', (e.t, e.kx_mod, e.ky_mod, e.model) == (t, kx, ky, m) and e.E == 3600., 'element %s properties' % n)
        cells.append((x0, x1, y0, y2))
    rec.true(key + ':orphans', used == set(loc), '%d nodes of the mesh belong to no element' % len(set(loc) - used))
    pts = sorted(loc.values())
    q = {(round(x/tol/4), round(y/tol/4)) for x, y in pts}
    rec.true(key + ':shared', len(q) == len(pts), '%d nodes at %d places' % (len(pts), len(q)))
    C = np.array(cells)
    a = (C[:, 1] - C[:, 0]) @ (C[:, 3] - C[:, 2])
    want = area_left(w, h, op)
    rec.close(key + ':area', a, want, 1e-8, w*h, 'total area of the elements')
    rec.true(key + ':inside', C[:, 0].min() > -tol and C[:, 1].max() < w + tol and C[:, 2].min() > -tol and C[:, 3].max() < h + tol, 'elements outside the rectangle')
    # the lines of the mesh form a grid, every element is one distinct grid cell
    xs, ys = lines(C[:, :2], tol), lines(C[:, 2:], tol)
    ix = [np.searchsorted(xs, C[:, k] - 2*tol) for k in (0, 1)]
    iy = [np.searchsorted(ys, C[:, k] - 2*tol) for k in (2, 3)]
    rec.true(key + ':overlap', len(set(zip(ix[0], iy[0]))) == len(C), 'elements overlap')
    rec.true(key + ':cells', (iy[1] - iy[0] == 1).all() and (ix[1] - ix[0] == 1).all() or bool(op), 'neighbouring elements do not share corners')
    # conformity also around openings: no corner of one element inside the side of another
    for k, (lo, hi, i0, i1) in enumerate(((C[:, 0], C[:, 1], C[:, 2], C[:, 3]), (C[:, 2], C[:, 3], C[:, 0], C[:, 1]))):
        P = np.array(pts)[:, [k, 1 - k]]
        for p in P:
            bad = (lo + 2*tol < p[0]) & (p[0] < hi - 2*tol) & (i0 - 2*tol < p[1]) & (p[1] < i1 + 2*tol)
            if bad.any():
                rec.fail(key + ':hanging', 'node at %s lies inside the side of an element' % (p,))
                break
    rec.ev(2*len(pts))
    for o_ in op:
        bad = (C[:, 0] + C[:, 1] > 2*o_[0] + tol) & (C[:, 0] + C[:, 1] < 2*(o_[0] + o_[2]) - tol) & (C[:, 2] + C[:, 3] > 2*o_[1] + tol) & (C[:, 2] + C[:, 3] < 2*(o_[1] + o_[3]) - tol)
        rec.true(key + ':opening', not bad.any(), '%d elements inside opening %s' % (bad.sum(), o_))
    for k, cs in ((0, xc), (2, yc)):
        for v in cs:
            bad = (C[:, k] < v - 3*tol) & (C[:, k + 1] > v + 3*tol)
            rec.true(key + ':control', not bad.any(), 'control line %r crosses an element' % v)
    rec.state(tuple(map(tuple, np.round(C, 6))))


def lines(v, tol):
    out = []
    for x in sorted(np.ravel(v)):
        if not out or x - out[-1] > 2*tol:
            out.append(x)
    return np.array(out)


def model():
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    return m


def run(c, rec):
    rec.history = [c]
    m = model()
    if 'shared' in c:
        # one list of control values used for two meshes of different size
        xs, ys = [1.0, 2.0], [.5]
        kw = dict(x_control=xs, y_control=ys)
        if c['shared'] == 2:
            kw = {}
        m.add_rectangle_mesh('A', 1., 6, 4, .37, 'C', .8, 1.3, start_node='N1', start_element='Q1', **kw)
        if c['shared'] == 1:
            m.meshes['A'].add_rect_opening('O', 3., 1., 1.2, 1.)
        m.meshes['A'].generate()
        m.add_rectangle_mesh('B', 1., 3, 2, .37, 'C', .8, 1.3, origin=[20, 0, 0], start_node='N500', start_element='Q500', **kw)
        m.meshes['B'].generate()
        rec.step(4)
        check(rec, 'shared%d:B' % c['shared'], m, m.meshes['B'], 3, 2, 1., 'XY', (20, 0, 0), 'Quad', *((xs, ys) if kw else ((), ())))
        rec.true('shared:list', (xs, ys) == ([1.0, 2.0], [.5]), 'the caller\'s lists of control values were changed to %s, %s' % (xs, ys))
        rec.trace()
        return
    w, h, s, plane, typ, o = (c[k] for k in ('w', 'h', 's', 'plane', 'typ', 'o'))
    xc, yc, op = c.get('xc', ()), c.get('yc', ()), [tuple(x) for x in c.get('op', ())]
    again = c.get('again', 0)
    key = '%gx%g/%g:%s:%s:%s:x%s:y%s:o%s:%d' % (w, h, s, plane, typ, '.'.join('%g' % v for v in o), ','.join(map(repr, xc)), ','.join(map(repr, yc)),
                                                ';'.join(','.join('%g' % v for v in x) for x in op), again)
    m.add_rectangle_mesh('A', s, w, h, .37, 'C', .8, 1.3, origin=list(o), plane=plane, x_control=list(xc) or None, y_control=list(yc) or None, element_type=typ)
    mesh = m.meshes['A']
    for i, x in enumerate(op):
        if again and i == len(op) - 1:
            mesh.generate()
            check(rec, key + ':first', m, mesh, w, h, s, plane, o, typ, xc, yc, op[:i])
            rec.step()
        mesh.add_rect_opening('O%d' % i, *x)
        rec.step()
    if again == 2:
        m._before = None
        try:                # the analysis generates the mesh (and then refuses the unsupported structure)
            ops.apply_real(m, ['analyze', {}])
        except Exception:
            pass
    else:
        mesh.generate()
    rec.step(2)
    rec.true(key + ':flag', mesh.is_generated() is True, 'mesh is not flagged as generated')
    check(rec, key, m, mesh, w, h, s, plane, o, typ, xc, yc, op)
    n = len(mesh.nodes), len(mesh.elements)
    reg = m.quads if typ == 'Quad' else m.plates
    rec.true(key + ':only', (len(m.nodes), len(reg)) == n, 'the model has %d nodes and %d elements, the mesh %s' % (len(m.nodes), len(reg), n))
    rec.outcome(key)
    rec.trace()
