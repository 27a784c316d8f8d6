"""Annulus, frustum and cylinder meshes."""
import itertools
import math

import numpy as np

from .. import ops

ID = 'P16'
TITLE = 'Curved meshes have the stated geometry and connectivity'
RULE = ('kind (annulus, frustum, cylinder of quads / plates) x radii x heights x mesh sizes (with and without transition rings, larger than the '
        'mesh itself) x axis x origin x stiffness modifiers x first names x number of elements')
ASSUMPTIONS = ['0 < inner radius < outer radius, positive height of cylinders']
AX = {'X': (0, 2, 1), 'Y': (1, 0, 2), 'Z': (2, 1, 0)}     # axial, direction of angle 0, direction of a quarter turn
ORIG = [(0, 0, 0), (3, -2, 7.5), (-40.1, .3, 1/3), (0, 6, 0), (100, 0, 0)]


def cases(tier):
    th = tier != 'quick'
    out = []
    radii = [(5, 2), (5, 4.6), (8, .5), (1, .05), (20, 3), (7.5, 1.5), (2/3, 1/3), (60, 55), (30, 1)]
    sizes = [.1, .2, .5, 1, 2, 3.3, 10, 100]
    for (R, r), s in itertools.product(radii, sizes):
        est = math.pi*(R*R - r*r)/s/s
        if est > (6000 if th else 900):
            continue
        for ax, (i, o) in itertools.product('XYZ', enumerate(ORIG)):
            if not th and (i + 'XYZ'.index(ax)) % 3 and i > 1:
                continue
            out.append(dict(k='annulus', R=R, r=r, s=s, ax=ax, o=o))
            for h in ((10, -4, .7) if th else ((10, -4)[len(out) % 2],)):
                out.append(dict(k='frustrum', R=R, r=r, h=h, s=s, ax=ax, o=o))
    for R, h, s in itertools.product((1, 5, 2/3, 20), (4, .3, 7.1, 30), sizes):
        if 2*math.pi*R*h/s/s > (6000 if th else 900):
            continue
        for ax, (i, o), t in itertools.product('XYZ', enumerate(ORIG), ('Quad', 'Rect')):
            if not th and (i + 'XYZ'.index(ax)) % 3 and i > 0:
                continue
            for n in (None, 3, 7) if th or i == 1 else (None,):
                out.append(dict(k='cylinder', R=R, h=h, s=s, ax=ax, o=o, t=t, n=n))
    return out


def surface(rec, key, m, mesh, ax, o, typ):
    """registered, conforming, orientable; returns node -> (axial, radius, angle) and the elements' corner ids"""
    a, b, c = AX[ax]
    o = np.array(o, float)
    loc, ids = {}, {}
    for n, x in mesh.nodes.items():
        p = np.array((x.X, x.Y, x.Z), float) - o
        loc[n] = (p[a], math.hypot(p[b], p[c]), math.atan2(p[c], p[b]) % (2*math.pi))
        rec.true(key + ':registered', m.nodes.get(n) is x and x.name == n, 'node %s of the mesh is not the model\'s node of that name' % n)
        ids[id(x)] = n
    reg = m.quads if typ == 'Quad' else m.plates
    els, edges = {}, {}
    for n, e in mesh.elements.items():
        rec.true(key + ':element', reg.get(n) is e and e.name == n and e.type == typ, 'element %s is not registered in the model' % n)
        rec.true(key + ':props', (e.t, e.kx_mod, e.ky_mod, e.E) == (.37, .8, 1.3, 3600.), 'element %s: thickness, modifiers, E = %s' % (n, (e.t, e.kx_mod, e.ky_mod, e.E)))
        c4 = [e.i_node, e.j_node, e.m_node, e.n_node]
        if not rec.true(key + ':corners', all(id(x) in ids for x in c4) and len(set(map(id, c4))) == 4, 'element %s: corners %s' % (n, [x.name for x in c4])):
            return None, None, None
        els[n] = [ids[id(x)] for x in c4]
        for k in range(4):
            edges.setdefault((els[n][k], els[n][(k + 1) % 4]), []).append(n)
    rec.true(key + ':edges', all(len(v) == 1 for v in edges.values()), 'elements overlap or face different ways along an edge')
    rec.true(key + ':orphans', {x for v in els.values() for x in v} == set(loc), 'nodes without elements')
    P = np.array([(x.X, x.Y, x.Z) for x in mesh.nodes.values()])
    q = {tuple(np.round((p - o)/1e-7).astype(int)) for p in P}
    rec.true(key + ':shared', len(q) == len(P), '%d nodes at %d places' % (len(P), len(q)))
    free = [e for e in edges if (e[1], e[0]) not in edges]
    E = len({frozenset(e) for e in edges})
    rec.true(key + ':euler', len(loc) - E + len(els) == 0, 'not a closed strip: %d nodes, %d edges, %d elements' % (len(loc), E, len(els)))
    rec.true(key + ':only', len(m.nodes) == len(loc) and len(reg) == len(els), 'model holds %d nodes, %d elements; mesh %d, %d' % (len(m.nodes), len(reg), len(loc), len(els)))
    return loc, els, free


def circle(rec, key, angles, n=None):
    a = sorted(angles)
    k = len(a)
    rec.true(key + ':circle', (n is None or k == n) and k >= 3, '%d nodes around the circumference, expected %s' % (k, n))
    d = np.diff(a + [a[0] + 2*math.pi]) if a else np.zeros(1)
    rec.true(key + ':spacing', np.abs(d - 2*math.pi/max(k, 1)).max() < 1e-6, 'uneven spacing around the circumference')
    return k


def run(c, rec):
    rec.history = [c]
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    ax, o, s, R = c['ax'], c['o'], c['s'], c['R']
    key = ':'.join('%s=%s' % (k, c[k] if not isinstance(c[k], (tuple, list)) else ','.join('%g' % v for v in c[k])) for k in sorted(c))
    kw = dict(kx_mod=.8, ky_mod=1.3, origin=list(o), axis=ax)
    typ = c.get('t', 'Quad')
    if c['k'] == 'annulus':
        m.add_annulus_mesh('A', s, R, c['r'], .37, 'C', **kw)
    elif c['k'] == 'frustrum':
        m.add_frustrum_mesh('A', s, R, c['r'], c['h'], .37, 'C', **kw)
    else:
        m.add_cylinder_mesh('A', s, R, c['h'], .37, 'C', num_elements=c['n'], element_type=typ, **kw)
    mesh = m.meshes['A']
    if not mesh.is_generated():
        mesh.generate()
    elif R == 5:
        mesh.generate()           # generating again changes nothing
    rec.step(2)
    loc, els, free = surface(rec, key, m, mesh, ax, o, typ)
    if loc is None:
        return
    tol = 1e-7*max(1, R, abs(c.get('h', 0)))
    if c['k'] == 'cylinder':
        h = c['h']
        rec.true(key + ':radius', all(abs(r - R) < tol for _, r, _ in loc.values()), 'nodes off the cylinder: radii %s' % sorted({round(r, 6) for _, r, _ in loc.values()})[:5])
        lev = sorted({round(z/tol/4)*tol*4 for z, _, _ in loc.values()})
        rec.true(key + ':height', abs(lev[0]) < 3*tol and abs(lev[-1] - h) < 3*tol, 'cylinder runs from %g to %g, expected 0 to %g above its origin' % (lev[0], lev[-1], h))
        n = None
        for z in lev:
            n = circle(rec, key + ':level', [t for x, _, t in loc.values() if abs(x - z) < 3*tol], n if n else c['n'])
        ok = True
        for e in els.values():
            (zi, _, ti), (zj, _, tj), (zm, _, tm), (zn, _, tn) = [loc[x] for x in e]
            d = 2*math.pi/n
            turn = (tj - ti) % (2*math.pi)
            ok &= abs(zi - zj) < tol and abs(zm - zn) < tol and zi > zn + tol and abs(turn - d) < 1e-6 and abs((tm - tn) % (2*math.pi) - d) < 1e-6 \
                and abs(math.remainder(ti - tn, 2*math.pi)) < 1e-6
        rec.true(key + ':facing', ok, 'an element is not a piece of the cylinder with its local y axis towards the base and its normal outward')
        rec.true(key + ':ends', all(min(abs(loc[x][0]), abs(loc[x][0] - h)) < 3*tol for e in free for x in e), 'free edges away from the ends of the cylinder')
    else:
        r = c['r']
        h = c.get('h', 0)
        for n, (z, q, t) in loc.items():
            rec.true(key + ':surface', abs(z - (q - R)/(R - r)*h) < tol and r - tol < q < R + tol, 'node %s at axial %g radius %g is off the surface' % (n, z, q))
        ni = circle(rec, key + ':inner', [t for z, q, t in loc.values() if abs(q - r) < tol])
        no = circle(rec, key + ':outer', [t for z, q, t in loc.values() if abs(q - R) < tol])
        rec.true(key + ':count', mesh.num_quads_outer == no, 'num_quads_outer is %s, %d elements around the outside' % (mesh.num_quads_outer, no))
        area = 0
        for e in els.values():
            xy = np.array([(loc[x][1]*math.cos(loc[x][2]), loc[x][1]*math.sin(loc[x][2])) for x in e])
            v = np.roll(xy, -1, 0) - xy
            cr = v[:, 0]*np.roll(v[:, 1], -1) - v[:, 1]*np.roll(v[:, 0], -1)
            a = .5*(xy[:, 0]*np.roll(xy[:, 1], -1) - xy[:, 1]*np.roll(xy[:, 0], -1)).sum()
            area += a
            rec.true(key + ':convex', (cr > 0).all(), 'an element is not convex, or does not face against the axis')
        want = no/2*R*R*math.sin(2*math.pi/no) - ni/2*r*r*math.sin(2*math.pi/ni)
        rec.close(key + ':area', area, want, 1e-7, want, 'area of the elements projected along the axis')
        rec.true(key + ':ends', all(min(abs(loc[x][1] - r), abs(loc[x][1] - R)) < tol for e in free for x in e), 'free edges away from the inner and outer circle')
    rec.state(key)
    rec.outcome((len(loc), len(els), c['k']))
    rec.trace()
