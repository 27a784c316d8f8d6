"""Exploration shared by the plate (P18) and quad (P19) element properties."""
import itertools

import numpy as np

from . import ops, shell

SHAPES = {'square': [(0, 0), (3, 0), (3, 3), (0, 3)], 'wide': [(0, 0), (4, 0), (4, 1.5), (0, 1.5)], 'tall': [(0, 0), (1.2, 0), (1.2, 5), (0, 5)]}
SKEW = {'parallelogram': [(0, 0), (3, 0), (4.2, 2), (1.2, 2)], 'trapezoid': [(0, 0), (4, 0), (3, 2.5), (.6, 2.5)], 'general': [(0, 0), (3.1, .4), (3.6, 2.9), (-.5, 2.2)],
        'taper': [(0, 0), (4, 0), (2.4, 1.1), (.3, 2.2)]}
THICK = (.02, .3, 1.4)
NU = (.3, 0., .48)
MODS = ((1., 1.), (.35, 1.), (1., .6), (.5, .5), (1.7, .25))
# rotation (axis, angle) and origin
FRAMES = {'XY': ([0, 0, 1], 0., (0, 0, 0)), 'XYr': ([0, 0, 1], 1.1, (2, -1, 0)), 'YX': ([1, 1, 0], np.pi, (0, 0, 1)), 'XZ': ([1, 0, 0], np.pi/2, (0, 3, 0)),
          'XZr': ([1, 0, 0], -np.pi/2, (0, 0, 0)), 'YZ': ([0, 1, 0], -np.pi/2, (5, 0, 2)), 'ZY': ([1, 1, 1], 2*np.pi/3, (0, 0, 0)), 'tilt': ([.3, -.7, .5], 1.9, (-4, 6, 10)),
          'tilt2': ([-.6, .2, .77], .8, (100, 50, -20))}
E0 = 3600.


def rot(axis, a):
    u = np.array(axis, float)/np.linalg.norm(axis)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(a)*K + (1 - np.cos(a))*K @ K


def place(xy, frame, start=0, rev=False):
    axis, a, o = FRAMES[frame]
    P = [(rot(axis, a) @ np.array([x, y, 0.]) + np.array(o, float)) for x, y in xy]
    P = P[start:] + P[:start]
    if rev:
        P = [P[0], P[3], P[2], P[1]]
    return np.round(np.array(P), 12)


def space(shapes, tier):
    """shape x thickness x nu x modifiers x frame x start corner x direction: up to three deviations from the plain element (thorough),
    one deviation and, for one shape, two (quick)"""
    dims = [list(shapes), list(THICK), list(NU), list(range(len(MODS))), list(FRAMES), [0, 1, 2, 3], [0, 1]]
    out = []
    for i in itertools.product(*[range(len(d)) for d in dims]):
        dev = sum(1 for k in i[1:] if k)
        if tier == 'quick' and (dev > 2 or (dev == 2 and (i[0] != len(dims[0]) - 2 or i[4] > 2))):
            continue
        if tier != 'quick' and dev > 3:
            continue
        out.append([d[k] for d, k in zip(dims, i)])
    return out


def build(kind, P, t, nu, mods, supports='111111'):
    h = [['node', 'N%d' % k, *map(float, p)] for k, p in enumerate(P)] + [['mat', 'C', E0, E0/2/(1 + nu), nu, .001]]
    h.append([kind, 'E', 'N0', 'N1', 'N2', 'N3', t, 'C', dict(kx_mod=mods[0], ky_mod=mods[1])])
    for k in range(4):
        h.append(['support', 'N%d' % k, [c == '1' for c in supports]])
    return h


def solve(h, D):
    """reactions of the completely supported element under the enforced displacements D (24)"""
    h = h + [['disp', 'N%d' % (k//6), ops.DOFS[k % 6], float(v)] for k, v in enumerate(D) if v] + [['analyze', {}]]
    m = ops.build(h)
    r = ops.reac(m, 'Combo 1')
    return m, np.concatenate([r['N%d' % k] for k in range(4)]), h


def results(e, kind, P, r, s):
    """reported (moment, shear, membrane) with the sign of moments of the quads"""
    if kind == 'quad':
        a = (r, s)
    else:
        w, hh = np.linalg.norm(P[1] - P[0]), np.linalg.norm(P[3] - P[0])
        a = ((r + 1)*w/2, (s + 1)*hh/2)
    sg = 1 if kind == 'quad' else -1
    return sg*np.array(e.moment(*a, combo_name='Combo 1')).ravel(), np.array(e.shear(*a, combo_name='Combo 1')).ravel(), \
        np.array(e.membrane(*a, combo_name='Combo 1')).ravel()


STATIONS = [(-1, -1), (1, 1), (0, 0), (.5, -.25)]      # four points decide a bilinear field


def fields():
    """linear membrane and quadratic bending fields in local coordinates: name -> (u, v, w, rx, ry)(x, y), strains, curvatures"""
    Z = lambda x, y: 0*x
    return {
        'ex': (lambda x, y: (x, 0, 0, 0, 0), (1, 0, 0), (0, 0, 0)), 'ey': (lambda x, y: (0, y, 0, 0, 0), (0, 1, 0), (0, 0, 0)),
        'gxy': (lambda x, y: (y/2, x/2, 0, 0, 0), (0, 0, 1), (0, 0, 0)),
        'kx': (lambda x, y: (0, 0, -x*x/2, 0, x), (0, 0, 0), (1, 0, 0)), 'ky': (lambda x, y: (0, 0, -y*y/2, -y, 0), (0, 0, 0), (0, 1, 0)),
        'kxy': (lambda x, y: (0, 0, -x*y/2, -x/2, y/2), (0, 0, 0), (0, 0, 1)), }


def run(case, rec, kind):
    shape, t, nu, im, frame, start, rev = case
    mods = MODS[im]
    P = place({**SHAPES, **SKEW}[shape], frame, start, rev)
    h = build(kind, P, t, nu, mods)
    rec.history = h
    mat = (E0, 0, nu)
    kref, R = shell.local_k(kind, P, t, E0, nu, *mods)
    T = shell.T24(R)
    xy, _ = shell.local_xy(P)
    K = np.zeros((24, 24))
    diag = np.sqrt(np.abs(np.diag(kref)))
    for c in range(24):
        d = np.zeros(24)
        d[c] = 1.0
        m, f, hh = solve(h, T.T @ d)
        rec.history = hh
        K[:, c] = T @ f
        rec.step(len(hh))
        rec.state((case, c))
        rec.trace()
        e = (m.quads if kind == 'quad' else m.plates)['E']
        rec.close('k', K[:, c]/diag, kref[:, c]/diag, 1e-6, diag[c], 'end forces for unit displacement %d:' % c)
        rec.close('F', np.array(e.F('Combo 1')).ravel(), f, 1e-8, np.abs(f).max(), 'element end forces against the support reactions')
        got = {}
        for st in STATIONS:
            a = results(e, kind, P, *st)
            if kind == 'quad':
                b = shell.quad_results(P, t, E0, nu, *mods, T.T @ d, *st)
            else:
                w, hgt = xy[1][0], xy[3][1]
                b = shell.plate_results(P, t, E0, nu, T.T @ d, (st[0] + 1)*w/2, (st[1] + 1)*hgt/2, *mods)
            got[st] = (np.concatenate(a), np.concatenate(b))
            rec.ev()
        for lo, hi, nm in ((0, 3, 'moment'), (3, 5, 'shear'), (5, 8, 'membrane')):
            sc = max(np.abs(b[lo:hi]).max() for a, b in got.values())
            if sc < 1e-9*diag[c]:
                sc = diag[c]
            for st, (a, b) in got.items():
                rec.close(nm, a[lo:hi], b[lo:hi], 1e-6, sc, '%s at %s for unit displacement %d:' % (nm, st, c))
    rec.history = h
    s = K/np.outer(diag, diag)
    rec.close('symmetric', s, s.T, 1e-8, 1, 'stiffness not symmetric:')
    # rigid body movements: no forces except the drilling spring's
    kz = kref[5, 5]
    size = np.ptp(xy, axis=0).max()
    for k in range(6):
        d = np.zeros(24)
        for n, (x, y) in enumerate(xy):
            if k < 3:
                d[6*n + k] = 1
            else:
                th = np.zeros(3)
                th[k - 3] = 1
                d[6*n:6*n+3] = np.cross(th, [x, y, 0])
                d[6*n+3:6*n+6] = th
        want = np.zeros(24)
        if k == 5:
            want[5::6] = kz
        rec.close('rigid', K @ d/diag, want/diag, 1e-7, diag.max()*size, 'forces in rigid body movement %d:' % k)
    ev = np.linalg.eigvalsh((s + s.T)/2)
    lo = np.sort(np.linalg.eigvalsh(kref/np.outer(diag, diag)))
    rec.true('definite', ev[0] > -1e-9 and abs(ev[7] - lo[7]) < 1e-5, 'stiffness eigenvalues %s' % ev[:9])
    # constant strain and constant curvature
    A = abs(sum(xy[i][0]*xy[(i + 1) % 4][1] - xy[(i + 1) % 4][0]*xy[i][1] for i in range(4)))/2
    Dm, Db = shell.D_plane(E0, nu, *mods), shell.D_plane(E0, nu)*t**3/12
    for nm, (fn, eps, kap) in fields().items():
        d = np.zeros(24)
        for n, (x, y) in enumerate(xy):
            d[6*n:6*n+5] = fn(x, y)
        m, f, hh = solve(h, T.T @ d)
        rec.history = hh
        rec.step(len(hh))
        rec.state((case, nm))
        rec.trace()
        en = d @ (T @ f)
        rec.close('energy:' + nm, en, A*(t*np.array(eps) @ Dm @ eps + np.array(kap) @ Db @ kap), 1e-6, msg='energy of constant ' + nm)
        e = (m.quads if kind == 'quad' else m.plates)['E']
        for st in STATIONS:
            M, Q, N = results(e, kind, P, *st)
            sc = max(E0*t**3/12, 1e-12)
            rec.close('const moment', M, Db @ kap, 1e-6, sc, 'moments at %s in constant %s' % (st, nm))
            rec.close('const shear', Q, [0, 0], 1e-6, sc if kind == 'plate' else max(sc, E0*t*1e-4), 'shear at %s in constant %s' % (st, nm))
            rec.close('const membrane', N, Dm @ eps, 1e-6, E0, 'membrane stress at %s in constant %s' % (st, nm))
    rec.outcome((shape, round(float(ev[7]), 6)))


def patch(kind, t, nu, mods, frame, layout, rec):
    """a patch of elements with interior nodes, displaced on its boundary only"""
    nodes, quads, inner = layout
    axis, a, o = FRAMES[frame]
    Rf = rot(axis, a)
    pos = {k: Rf @ np.array([x, y, 0.]) + np.array(o, float) for k, (x, y) in nodes.items()}
    base = [['node', k, *map(float, p)] for k, p in pos.items()] + [['mat', 'C', E0, E0/2/(1 + nu), nu, .001]]
    for i, q in enumerate(quads):
        base.append([kind, 'E%d' % i, *q, t, 'C', dict(kx_mod=mods[0], ky_mod=mods[1])])
    for nm, (fn, eps, kap) in fields().items():
        h = list(base)
        want = {}
        for k, (x, y) in nodes.items():
            u, v, w, rx, ry = fn(x, y)
            d = np.concatenate([Rf @ np.array([u, v, w], float), Rf @ np.array([rx, ry, 0.])])
            want[k] = d
            if k not in inner:
                h.append(['support', k, [True]*6])
                h += [['disp', k, ops.DOFS[j], float(val)] for j, val in enumerate(d) if val]
        h.append(['analyze', {}])
        rec.history = h
        m = ops.build(h)
        rec.step(len(h))
        rec.state((kind, t, nu, mods, frame, nm))
        rec.trace()
        got = ops.disp(m, 'Combo 1')
        for k in inner:
            rec.close('patch:%s' % nm, got[k], want[k], 1e-6, np.abs(list(want.values())).max(), 'interior node %s of the patch in constant %s' % (k, nm))
        Dm, Db = shell.D_plane(E0, nu, *mods), shell.D_plane(E0, nu)*t**3/12
        for i, q in enumerate(quads):
            e = (m.quads if kind == 'quad' else m.plates)['E%d' % i]
            P = np.array([pos[n] for n in q])
            R = shell.axes(P) @ Rf
            c, s = R[0][0], R[0][1]
            # strains in the element's axes
            def turn(v):
                g = np.array([[v[0], v[2]/2, 0], [v[2]/2, v[1], 0], [0, 0, 0]])
                g = R @ g @ R.T
                return np.array([g[0, 0], g[1, 1], 2*g[0, 1]])
            fl = R[2][2]
            for st in ((0, 0), (1, -1)):
                M, Q, N = results(e, kind, P, *st)
                rec.close('patch moment', M, Db @ turn(kap)*fl, 1e-6, E0*t**3/12, 'moments of element %d at %s in constant %s' % (i, st, nm))
                rec.close('patch membrane', N, Dm @ turn(eps), 1e-6, E0, 'membrane stresses of element %d at %s in constant %s' % (i, st, nm))


RECT = ({'A': (0, 0), 'B': (1.2, 0), 'C': (3, 0), 'D': (4, 0), 'E': (0, .7), 'F': (1.2, .7), 'G': (3, .7), 'H': (4, .7),
         'I': (0, 2), 'J': (1.2, 2), 'K': (3, 2), 'L': (4, 2), 'M': (0, 2.6), 'N': (1.2, 2.6), 'O': (3, 2.6), 'P': (4, 2.6)},
        ['ABFE', 'BCGF', 'CDHG', 'EFJI', 'FGKJ', 'GHLK', 'IJNM', 'JKON', 'KLPO'], 'FGJK')
# distorted interior, mixed starting corners and directions
DIST = ({'A': (0, 0), 'B': (4, 0), 'C': (4.4, 3), 'D': (-.3, 2.6), 'E': (1.1, .8), 'F': (2.9, .6), 'G': (3.1, 1.9), 'H': (.9, 1.7)},
        ['ABFE', 'BCGF', 'GCDH', 'HDAE', 'EFGH'], 'EFGH')


def turned(layout, starts, revs):
    n, q, i = layout
    out = []
    for k, e in enumerate(q):
        s = starts[k % len(starts)]
        e = e[s:] + e[:s]
        out.append(e[0] + e[3] + e[2] + e[1] if revs[k % len(revs)] else e)
    return n, out, i
