"""Refined models converge to the continuum they stand for (plates, plane stress, shells of revolution, box girders, beam-columns)."""
import math

import numpy as np

from .. import ops

ID = 'P41'
TITLE = 'Refined models converge to plate, shell and beam-column theory'
RULE = ('problem with a closed solution (plate with simple or clamped edges, plane-stress cantilever, ring, circular plate, cylinder, tank, cone, box girder, beam-column) x element type x plane or axis x '
        'proportions x thickness x Poisson ratio x load; every case on meshes each twice as fine as the one before: the error shrinks with every refinement and is small on the last')
ASSUMPTIONS = ['closed solutions: Navier series for shear-flexible (quads) or thin (rectangular plates) plates, Kirchhoff annular plate, Lame ring, membrane shells, the tank clamped at its base, Timoshenko and Bredt box beam, '
               'exact stability functions', 'convergence is judged on the sequence of meshes: at each halving of the size the error falls below 60% of the one before or below 1%']

E0, T = 1000., 1e-9
PLANES = {'XY': (0, 1, 2), 'XZ': (0, 2, 1), 'YZ': (2, 1, 0)}          # local x, local y, normal
AX = {'X': 0, 'Y': 1, 'Z': 2}


def cases(tier):
    th = tier != 'quick'
    out = []
    for et in ('Quad', 'Rect'):
        for pl in PLANES:
            for a, b in ((4., 4.), (4., 6.), (6., 4.)):
                for h in (.04, .2, .8):
                    for nu in (0., .3):
                        if th or (pl == 'XY' or h == .2) and (nu or a == 4) and (h == .2 or b == 6 or a == 6):
                            out.append(['ss', et, pl, a, b, h, nu])
            out.append(['clamped', et, pl, .05])
            for load in ('shear', 'axial', 'moment'):
                for nu in (0., .3):
                    if th or nu:
                        out.append(['strip', et, pl, load, nu])
    for ax in AX:
        for org in ([0., 0., 0.], [3., -2., 5.]):
            for nu in (0., .3):
                if th or nu:
                    out += [['annulus', ax, org, nu, k] for k in ('lame', 'outer', 'inner')]
                    out += [['cylinder', ax, org, nu, k] for k in ('pressure', 'axial', 'torsion')]
                    out.append(['cone', ax, org, nu])
                    out.append(['tank', ax, org, nu])
    for et in ('Quad', 'Rect'):
        out += [['box', et, k] for k in ('axial', 'bend-y', 'bend-z', 'twist')]
    for axis in 'xyz':
        for bend in ('Fy', 'Fz'):
            for kind in ('simple', 'cantilever', 'fixed'):
                for f in (.2, .5, .8, -.6):
                    if th or axis != 'z' or f == .5:
                        out.append(['column', axis, bend, kind, f])
    return [c + [th] for c in out]


def judge(rec, key, errs, last, what):
    """errs: one dict of relative errors per mesh"""
    for q in errs[0]:
        e = [abs(x[q]) for x in errs]
        rec.true('%s:%s' % (key, q), all(b < max(.6*a, .01) for a, b in zip(e, e[1:])) and e[-1] < last and all(np.isfinite(e)),
                 '%s: %s differs from theory by %s on successively finer meshes' % (what, q, ', '.join('%.2f%%' % (100*x) for x in e)))
    rec.trace()
    rec.outcome((key, tuple(round(min(x.values()), 3) for x in errs)))


def P(nd):
    return np.array([nd.X, nd.Y, nd.Z], float)


def D(nd, c='A'):
    return np.array([nd.DX[c], nd.DY[c], nd.DZ[c], nd.RX[c], nd.RY[c], nd.RZ[c]], float)


def solve(rec, key, m):
    with ops.quiet():
        m.analyze(check_stability=False)
    rec.step()
    rec.state(key)


def new(nu, E=E0):
    m = ops.new_model()
    m.add_material('C', E, E/2/(1 + nu), nu, 1.)
    m.add_load_combo('A', {'K': 1.})
    return m


def elements(m, et):
    return m.quads if et == 'Quad' else m.plates


def press(m, et, p):
    for k in elements(m, et):
        (m.add_quad_surface_pressure if et == 'Quad' else m.add_plate_surface_pressure)(k, p, 'K')


def moments_at(m, et, node):
    """moments of the elements around a node, averaged"""
    ms = []
    for el in elements(m, et).values():
        for nd, x, y in ((el.i_node, -1, -1), (el.j_node, 1, -1), (el.m_node, 1, 1), (el.n_node, -1, 1)):
            if nd is node:
                ms.append(np.ravel(el.moment(x, y, True, 'A') if et == 'Quad' else el.moment((x + 1)/2*el.width(), (y + 1)/2*el.height(), True, 'A')))
    return np.mean(ms, 0)


def series(a, b, h, nu, q, kappa):
    Db, G = E0*h**3/12/(1 - nu**2), E0/2/(1 + nu)
    w = mx = my = 0.
    for i in range(1, 80, 2):
        for j in range(1, 80, 2):
            k2 = math.pi**2*(i*i/a/a + j*j/b/b)
            s = math.sin(i*math.pi/2)*math.sin(j*math.pi/2)*16*q/(math.pi**2*i*j)/Db/k2**2
            w += s*(1 + Db*k2/(kappa*G*h))
            mx += s*Db*math.pi**2*(i*i/a/a + nu*j*j/b/b)
            my += s*Db*math.pi**2*(j*j/b/b + nu*i*i/a/a)
    return w, mx, my


def plate(rec, case, key):
    if case[0] == 'ss':
        _, et, pl, a, b, h, nu = case
    else:
        (_, et, pl, h), a, b, nu = case, 4., 4., .3
    e, q = PLANES[pl], .01
    errs = []
    for n in (1, 2) if rec.quick else (1, 2, 4):
        m = new(nu)
        m.add_rectangle_mesh('M', 1/n, a, b, h, 'C', 1., 1., [0, 0, 0], pl, element_type=et)
        m.meshes['M'].generate()
        for k, nd in m.nodes.items():
            x, y = P(nd)[e[0]], P(nd)[e[1]]
            s = [False]*6
            s[e[0]] = s[e[1]] = True
            ex, ey = min(abs(x), abs(x - a)) < 1e-9, min(abs(y), abs(y - b)) < 1e-9
            s[e[2]] = ex or ey
            s[3 + e[0]], s[3 + e[1]] = ex, ey
            m.def_support(k, *([True]*6 if (ex or ey) and case[0] == 'clamped' else s))
        press(m, et, q)
        solve(rec, (key, n), m)
        mid = min(m.nodes.values(), key=lambda nd: abs(P(nd)[e[0]] - a/2) + abs(P(nd)[e[1]] - b/2))
        up = list(elements(m, et).values())[0].T()[2, e[2]]           # the pressure acts along the local z axis
        w, mo = D(mid)[e[2]]*up, moments_at(m, et, mid)
        if case[0] == 'ss':
            want = series(a, b, h, nu, q, 5/6 if et == 'Quad' else 1e12)
            errs.append({'deflection': w/want[0] - 1, 'Mx': abs(mo[0])/want[1] - 1, 'My': abs(mo[1])/want[2] - 1})
        else:
            Db = E0*h**3/12/(1 - nu**2)
            edge = min(m.nodes.values(), key=lambda nd: abs(P(nd)[e[0]]) + abs(P(nd)[e[1]] - b/2))
            me = moments_at(m, et, edge)
            errs.append({'deflection': w/(.00126532*q*a**4/Db) - 1, 'centre Mx': abs(mo[0])/(.0229051*q*a*a) - 1, 'edge Mx': abs(me[0])/(.0513338*q*a*a) - 1})
        r = sum((nd.RxnFX, nd.RxnFY, nd.RxnFZ)[e[2]]['A'] for nd in m.nodes.values())
        rec.close(key + ':total', abs(r), q*a*b, 1e-6, q*a*b, 'the reactions of a plate under pressure')
    judge(rec, key, errs, .09 if rec.quick else .04, 'plate %s' % case[1:])


def strip(rec, case, key):
    """plane-stress cantilever"""
    _, et, pl, load, nu = case
    e, L, d, t = PLANES[pl], 10., 2., .25
    I, A, G = t*d**3/12, t*d, E0/2/(1 + nu)
    errs = []
    for n in (2, 4, 8):
        m = new(nu)
        m.add_rectangle_mesh('M', d/n, L, d, t, 'C', 1., 1., [0, 0, 0], pl, element_type=et)
        m.meshes['M'].generate()
        dof = ('FX', 'FY', 'FZ')
        end = []
        for k, nd in m.nodes.items():
            x, y = P(nd)[e[0]], P(nd)[e[1]]
            s = [False]*6
            s[e[2]] = s[3 + e[0]] = s[3 + e[1]] = True
            if abs(x) < 1e-9:
                s[e[0]] = True
                s[e[1]] = abs(y - d/2) < 1e-9 or load == 'shear'
            m.def_support(k, *s)
            if abs(x - L) < 1e-9:
                end.append((k, y))
        for k, y in end:
            f = .5 if min(y, d - y) < 1e-9 else 1.
            if load == 'moment':
                # consistent loads of the linear stress 2 y'/d
                f = sum(quad_lin(y - d/2, d/n, s) for s in (-1, 1) if abs(y - d/2 + s*d/n) < d/2 + 1e-9)
                m.add_node_load(k, dof[e[0]], f, 'K')
            else:
                m.add_node_load(k, dof[e[0] if load == 'axial' else e[1]], f/n, 'K')
        solve(rec, (key, n), m)
        tip = np.mean([D(m.nodes[k])[:3] for k, y in end], 0)
        if load == 'axial':
            errs.append({'extension': tip[e[0]]/(L/E0/A) - 1})
        elif load == 'shear':
            errs.append({'deflection': tip[e[1]]/(L**3/3/E0/I + L/(5/6*G*A)) - 1})
        else:
            M = d*d/6
            errs.append({'deflection': abs(tip[e[1]])/(M*L*L/2/E0/I) - 1})
    judge(rec, key, errs, .02, 'plane-stress cantilever %s' % case[1:])


def quad_lin(y, s, way):
    """consistent nodal force at y of the stress 2y/d (d = 2) over the side of length s towards way"""
    return s*(2*y + (y + way*s))/6


def polar(m, ax, org):
    k = AX[ax]
    a, b = (k + 1) % 3, (k + 2) % 3
    out = {}
    for n, nd in m.nodes.items():
        v = P(nd) - np.array(org)
        out[n] = (math.hypot(v[a], v[b]), math.atan2(v[b], v[a]), v[k])
    return k, a, b, out


def rad(dd, a, b, th):
    return dd[a]*math.cos(th) + dd[b]*math.sin(th)


def tan(dd, a, b, th):
    return -dd[a]*math.sin(th) + dd[b]*math.cos(th)


def radial_load(m, n, a, b, th, f):
    dof = ('FX', 'FY', 'FZ')
    m.add_node_load(n, dof[a], f*math.cos(th), 'K')
    m.add_node_load(n, dof[b], f*math.sin(th), 'K')


def annulus(rec, case, key):
    _, ax, org, nu, kind = case
    ro, ri, t = 4., 2., (.5 if kind == 'lame' else .05)
    Db, p, q = E0*t**3/12/(1 - nu**2), .3, .001
    errs = []
    for s in (1., .5) if rec.quick else (1., .5, .25):
        m = new(nu)
        m.add_annulus_mesh('M', s, ro, ri, t, 'C', 1., 1., list(org), ax)
        m.meshes['M'].generate()
        k, a, b, pol = polar(m, ax, org)
        inner = [n for n, v in pol.items() if abs(v[0] - ri) < 1e-6]
        outer = [n for n, v in pol.items() if abs(v[0] - ro) < 1e-6]
        for n in pol:
            f = [False]*6
            if kind == 'lame':
                f[k] = f[3 + a] = f[3 + b] = True
                # the ring turns about its centre without resistance: hold the tangential movement where it is parallel to an axis
                c, sn = math.cos(pol[n][1]), math.sin(pol[n][1])
                f[b], f[a] = abs(sn) < 1e-9, abs(c) < 1e-9
                # some meshes have no node on the other axis; moving the ring along this one leaves its mean widening as it is
                if n == inner[0] and len({abs(math.sin(v[1])) < 1e-9 for v in pol.values() if min(abs(math.sin(v[1])), abs(math.cos(v[1]))) < 1e-9}) == 1:
                    f[a] = f[b] = True
            else:
                f[a] = f[b] = f[3 + k] = True
                f[k] = n in (outer if kind == 'outer' else inner)
            m.def_support(n, *f)
        if kind == 'lame':
            for n in inner:
                radial_load(m, n, a, b, pol[n][1], p*t*2*math.pi*ri/len(inner))
            solve(rec, (key, s), m)
            u = [np.mean([rad(D(m.nodes[n]), a, b, pol[n][1]) for n in g]) for g in (inner, outer)]
            c1 = p*ri**2/(ro**2 - ri**2)
            w = [(1 - nu)/E0*c1*r + (1 + nu)/E0*c1*ro**2/r for r in (ri, ro)]
            errs.append({'inner widening': u[0]/w[0] - 1, 'outer widening': u[1]/w[1] - 1})
        else:
            press(m, 'Quad', q)
            solve(rec, (key, s), m)
            free = inner if kind == 'outer' else outer
            u = abs(np.mean([D(m.nodes[n])[k] for n in free]))
            errs.append({'deflection': u/annular(ri, ro, kind, nu, Db, q) - 1})
    judge(rec, key, errs, .05, 'annulus %s' % case[1:])


def annular(ri, ro, kind, nu, Db, q):
    """deflection of the free edge of a simply supported annular plate under uniform pressure: w = q r^4/64D + c1 + c2 ln r + c3 r^2 + c4 r^2 ln r"""
    rs = ro if kind == 'outer' else ri

    def w(r):
        return np.array([1., math.log(r), r*r, r*r*math.log(r)]), q*r**4/64/Db

    def mr(r):                 # w'' + nu w'/r
        return (np.array([0., -1/r**2 + nu/r**2, 2 + 2*nu, 2*math.log(r) + 3 + nu*(2*math.log(r) + 1)]), q*r*r/16/Db*(3 + nu))

    def v(r):                  # (w'' + w'/r)'
        return np.array([0., 0., 0., 4/r]), q*r/2/Db
    rows = [w(rs), mr(ri), mr(ro), v(ri if kind == 'outer' else ro)]
    c = np.linalg.solve(np.array([x[0] for x in rows]), [-x[1] for x in rows])
    A, B = w(ri if kind == 'outer' else ro)
    return abs(A @ c + B)


def cylinder(rec, case, key):
    _, ax, org, nu, kind = case
    r, H, t, p, F = 3., 4., .05, .02, 2.
    errs = []
    for d in (16, 32) if rec.quick else (16, 32, 64):
        m, s = new(nu), 2*math.pi*r/d*1.0001
        m.add_cylinder_mesh('M', s, r, H, t, 'C', 1., 1., list(org), ax)
        m.meshes['M'].generate()
        k, a, b, pol = polar(m, ax, org)
        ends = [[n for n, v in pol.items() if abs(v[2] - z) < 1e-6] for z in (min(v[2] for v in pol.values()), max(v[2] for v in pol.values()))]
        for n in pol:
            f = [False]*6
            c, sn = math.cos(pol[n][1]), math.sin(pol[n][1])
            if n in ends[0]:
                f[k] = True
                f[b], f[a] = abs(sn) < 1e-9 or kind == 'torsion', abs(c) < 1e-9 or kind == 'torsion'
            m.def_support(n, *f)
        dof = ('FX', 'FY', 'FZ')
        if kind == 'pressure':
            press(m, 'Quad', p)
        for n in ends[1]:
            if kind == 'axial':
                m.add_node_load(n, dof[k], F/len(ends[1]), 'K')
            if kind == 'torsion':
                c, sn = math.cos(pol[n][1]), math.sin(pol[n][1])
                m.add_node_load(n, dof[a], -F/r/len(ends[1])*sn, 'K')
                m.add_node_load(n, dof[b], F/r/len(ends[1])*c, 'K')
        solve(rec, (key, s), m)
        u = np.mean([abs(rad(D(m.nodes[n]), a, b, v[1])) for n, v in pol.items() if abs(v[2] - H/2) < s]) if kind != 'torsion' else 0
        w = np.mean([D(m.nodes[n])[k] for n in ends[1]])
        if kind == 'pressure':
            errs.append({'widening': u/(p*r*r/E0/t) - 1, 'shortening': abs(w)/(nu*p*r/E0/t*H) - 1 if nu else 0.})
        elif kind == 'axial':
            ez = F/(2*math.pi*r*t*E0)
            errs.append({'extension': w/(ez*H) - 1, 'narrowing': u/(nu*ez*r) - 1 if nu else 0.})
        else:
            x = np.mean([tan(D(m.nodes[n]), a, b, pol[n][1]) for n in ends[1]])
            errs.append({'twist': x/(F*H*r/(E0/2/(1 + nu)*2*math.pi*r**3*t)) - 1})
    judge(rec, key, errs, .04, 'cylinder %s' % case[1:])


def tank(rec, case, key):
    """a tank clamped at its base under hydrostatic pressure: w, rotation, moment and shear of a wall strip on its hoops"""
    _, ax, org, nu = case
    r, H, t, p0 = 3., 3., .3, .02
    Db = E0*t**3/12/(1 - nu**2)
    kf, S = E0*t/r**2, 5/6*E0/2/(1 + nu)*t
    # shear-flexible wall on the elastic foundation of its hoops: state (w, rotation, M, V)
    lam, vec = np.linalg.eig(np.array([[0, 1, 0, 1/S], [0, 0, -1/Db, 0], [0, 0, 0, 1], [kf, 0, 0, 0]], complex))

    def base(z):
        return vec*np.exp(lam*z)
    part = lambda z: np.array([p0*(1 - z/H)/kf, -p0/H/kf, 0., 0.])
    co = np.linalg.solve(np.vstack([base(0)[:2], base(H)[2:]]), -np.concatenate([part(0)[:2], part(H)[2:]]))
    w = lambda z: ((base(z) @ co).real + part(z))[0]
    M0 = abs((base(0) @ co).real[2])
    errs = []
    for d in (24, 48) if rec.quick else (24, 48, 96):
        m, s = new(nu), 2*math.pi*r/d*1.0001
        m.add_cylinder_mesh('M', s, r, H, t, 'C', 1., 1., list(org), ax)
        m.meshes['M'].generate()
        k, a, b, pol = polar(m, ax, org)
        z0 = min(v[2] for v in pol.values())
        for n, v in pol.items():
            if v[2] - z0 < 1e-6:
                m.def_support(n, *[True]*6)
        zs = {}
        for n, q in m.quads.items():
            z = np.mean([pol[x.name][2] for x in (q.i_node, q.j_node, q.m_node, q.n_node)]) - z0
            out = q.T()[2, :3] @ (np.mean([P(x) for x in (q.i_node, q.j_node, q.m_node, q.n_node)], 0) - np.array(org) - (z + z0)*np.eye(3)[k])
            m.add_quad_surface_pressure(n, p0*(1 - z/H)*np.sign(out), 'K')
        solve(rec, (key, d), m)
        for n, v in pol.items():
            zs.setdefault(round(v[2] - z0, 6), []).append(rad(D(m.nodes[n]), a, b, v[1]))
        top = max(abs(w(z)) for z in np.linspace(0, H, 61))
        foot = [n for n, v in pol.items() if v[2] - z0 < 1e-6]
        mo = np.mean([moments_at(m, 'Quad', m.nodes[n]) for n in foot[:4]], 0)
        errs.append({'profile': max(abs(np.mean(u) - w(z)) for z, u in zs.items())/top, 'round': max(np.ptp(u) for u in zs.values())/top,
                     'base moment': max(abs(mo[:2]))/M0 - 1})
    judge(rec, key, errs, .12 if rec.quick else .06, 'tank %s' % case[1:])


def cone(rec, case, key):
    """a cone pulled along its meridians at both ends is a membrane without hoop force"""
    _, ax, org, nu = case
    R, r, H, t, F = 4., 2., 3., .05, 2.
    sl = math.hypot(R - r, H)
    errs = []
    for d in (16, 32) if rec.quick else (16, 32, 64):
        m, s = new(nu), 2*math.pi*r/d*1.0001
        m.add_frustrum_mesh('M', s, R, r, H, t, 'C', 1., 1., list(org), ax)
        m.meshes['M'].generate()
        k, a, b, pol = polar(m, ax, org)
        big = [n for n, v in pol.items() if abs(v[0] - R) < 1e-6]
        small = [n for n, v in pol.items() if abs(v[0] - r) < 1e-6]
        sgn = np.sign(pol[small[0]][2] - pol[big[0]][2])
        dof = ('FX', 'FY', 'FZ')
        for n in pol:
            f = [False]*6
            c, sn = math.cos(pol[n][1]), math.sin(pol[n][1])
            if n in big:
                f[k], f[b], f[a] = True, abs(sn) < 1e-9, abs(c) < 1e-9
            m.def_support(n, *f)
        for g, w in ((big, 1.), (small, -1.)):
            for n in g:
                radial_load(m, n, a, b, pol[n][1], w*F*(R - r)/H/len(g))
        for n in small:
            m.add_node_load(n, dof[k], sgn*F/len(small), 'K')
        solve(rec, (key, s), m)
        w = np.mean([D(m.nodes[n])[k] for n in small])*sgn
        # N = F/(2 pi r cos) with cos = H/sl; elongation of the meridian and hoop contraction give the axial movement
        N1 = F*sl/H/(2*math.pi*E0*t)                # N r / Et
        du = -nu*N1*0                               # the hoop movement -nu N1 is the same at both ends
        want = (N1*math.log(R/r)*sl/(R - r) + du)*sl/H
        u = np.mean([rad(D(m.nodes[n]), a, b, v[1]) for n, v in pol.items()])
        errs.append({'extension': w/want - 1})
        if nu:
            rec.true('%s:%s:sign' % (key, s), u < 0, 'a cone in tension widens by %g' % u)
    judge(rec, key, errs, .05, 'cone %s' % case[1:])


def box(rec, case, key):
    """box girder of four meshes joined at their edges"""
    _, et, kind = case
    L, B, H, t, nu, F = 12., 2., 1., .05, .3, 1.
    G = E0/2/(1 + nu)
    errs = []
    for n in (1, 2) if rec.quick else (1, 2, 4):
        m = new(nu)
        s = H/n
        # bottom and top (XZ planes), sides (XY planes)
        for i, (pl, o, w, h) in enumerate((('XZ', [0, 0, 0], L, B), ('XZ', [0, H, 0], L, B), ('XY', [0, 0, 0], L, H), ('XY', [0, 0, B], L, H))):
            m.add_rectangle_mesh('M%d' % i, s, w, h, t, 'C', 1., 1., o, pl, element_type=et)
        for mesh in m.meshes.values():
            mesh.generate()
        m.merge_duplicate_nodes()
        end = [k for k, nd in m.nodes.items() if abs(nd.X - L) < 1e-9]
        wt = {k: 0. for k in end}
        for el in elements(m, et).values():
            on = [x.name for x in (el.i_node, el.j_node, el.m_node, el.n_node) if x.name in wt]
            if len(on) == 2:
                for k in on:
                    wt[k] += s*t/2
        A = sum(wt.values())
        for k, nd in m.nodes.items():
            if abs(nd.X) < 1e-9:
                m.def_support(k, *[True]*6)
        J = 4*(B*H)**2*t/(2*(B + H))
        for k in end:
            nd = m.nodes[k]
            y, z = nd.Y - H/2, nd.Z - B/2
            if kind == 'axial':
                m.add_node_load(k, 'FX', F*wt[k]/A, 'K')
            elif kind == 'bend-y' and abs(abs(z) - B/2) < 1e-9:
                m.add_node_load(k, 'FY', F/2/n*(.5 if abs(abs(y) - H/2) < 1e-9 else 1.), 'K')
            elif kind == 'bend-z' and abs(abs(y) - H/2) < 1e-9:
                m.add_node_load(k, 'FZ', F/2/n*s*n/B*(.5 if abs(abs(z) - B/2) < 1e-9 else 1.), 'K')
        if kind == 'twist':
            # shear flow T/2A around the section
            q = F/(2*B*H)
            for el in elements(m, et).values():
                on = [x for x in (el.i_node, el.j_node, el.m_node, el.n_node) if x.name in wt]
                if len(on) == 2:
                    flat = abs(on[0].Y - on[1].Y) < 1e-9
                    for x in on:
                        if flat:
                            m.add_node_load(x.name, 'FZ', q*s/2*(1 if x.Y > H/2 else -1), 'K')
                        else:
                            m.add_node_load(x.name, 'FY', q*s/2*(-1 if x.Z > B/2 else 1), 'K')
        solve(rec, (key, n), m)
        dd = {k: D(m.nodes[k]) for k in end}
        mean = np.mean([dd[k]*wt[k] for k in end], 0)/np.mean(list(wt.values()))
        corner = np.mean([dd[k] for k in end if abs(abs(m.nodes[k].Y - H/2) - H/2) < 1e-9 and abs(abs(m.nodes[k].Z - B/2) - B/2) < 1e-9], 0)
        Iz = 2*(t*H**3/12) + 2*B*t*H*H/4
        Iy = 2*(t*B**3/12) + 2*H*t*B*B/4
        if kind == 'axial':
            errs.append({'extension': mean[0]/(F*L/E0/A) - 1})
        elif kind == 'bend-y':
            errs.append({'deflection': corner[1]/(F*L**3/3/E0/Iz + F*L/(G*2*H*t)) - 1})
        elif kind == 'bend-z':
            errs.append({'deflection': corner[2]/(F*L**3/3/E0/Iy + F*L/(G*2*B*t)) - 1})
        else:
            top = [k for k in end if abs(m.nodes[k].Y - H) < 1e-9]
            bot = [k for k in end if abs(m.nodes[k].Y) < 1e-9]
            rot = (np.mean([dd[k][2] for k in top]) - np.mean([dd[k][2] for k in bot]))/H
            errs.append({'twist': abs(rot)/(F*L/G/J) - 1})
    judge(rec, key, errs, .06, 'box girder %s' % case[1:])


def column(rec, case, key):
    """beam-columns cut into 1, 2, 4 and 8 members"""
    _, axis, bend, kind, f = case
    L, E, Iy, Iz, A = 10., 1000., .3, .5, 400.
    # A is large: the length does not change
    I = Iz if bend == 'Fy' else Iy
    EI = E*I
    Pc = f*math.pi**2*EI/L**2*(.25 if kind == 'cantilever' else 1.)      # compression positive
    q, Q = .4, .7
    k = 'xyz'.index(axis)
    ends = {'x': 'FX', 'y': 'FY', 'z': 'FZ'}
    errs = []
    u = math.sqrt(abs(Pc)/EI)
    # EI w'''' + P w'' = q; w = particular q x^2/2P + c0 + c1 x + c2 cos + c3 sin
    cs, sn = (math.cos, math.sin) if f > 0 else (math.cosh, math.sinh)
    s1 = 1. if f > 0 else -1.

    def w(x, d):
        X = u*x
        base = [[1, x, cs(X), sn(X)], [0, 1, -s1*u*sn(X), u*cs(X)], [0, 0, -s1*u*u*cs(X), -s1*u*u*sn(X)], [0, 0, u**3*sn(X) if f > 0 else u**3*sn(X), -s1*u**3*cs(X)]][d]
        return np.array(base, float), [q*x*x/2/Pc, q*x/Pc, q/Pc, 0.][d]
    bc = {'simple': [(0, 0), (0, 2), (L, 0), (L, 2)], 'cantilever': [(0, 0), (0, 1), (L, 2), 'free'], 'fixed': [(0, 0), (0, 1), (L, 0), (L, 1)]}[kind]
    rows = []
    for c in bc:
        if c == 'free':
            # shear at the free end: EI w''' + P w' = -Q
            b3, p3 = w(L, 3)
            b1, p1 = w(L, 1)
            rows.append((EI*b3 + Pc*b1, EI*p3 + Pc*p1, -Q))
        else:
            b0, p0 = w(*c)
            rows.append((b0, p0, 0.))
    co = np.linalg.solve(np.array([r[0] for r in rows]), [r[2] - r[1] for r in rows])
    xs = L if kind == 'cantilever' else L/2
    wx = w(xs, 0)[0] @ co + w(xs, 0)[1]
    xm = 0. if kind != 'simple' else L/2
    Mx = EI*(w(xm, 2)[0] @ co + w(xm, 2)[1])
    for n in (1, 2, 4, 8):
        m = ops.new_model()
        m.add_material('C', E, 400., .3, 1.)
        m.add_load_combo('A', {'K': 1.})
        pts = []
        for i in range(n + 1):
            p = [0., 0., 0.]
            p[k] = L*i/n
            m.add_node('N%d' % i, *p)
            pts.append(p)
        for i in range(n):
            m.add_member('M%d' % i, 'N%d' % i, 'N%d' % (i + 1), 'C', Iy, Iz, .4, A)
        ld = m.members['M0'].T()[1 if bend == 'Fy' else 2, :3]
        gi = int(np.argmax(abs(ld)))
        f0 = [True]*6
        if kind == 'simple':
            f0 = [True]*3 + [False]*3
            f0[3 + k] = True
        m.def_support('N0', *f0)
        if kind != 'cantilever':
            g = [True]*3 + [kind == 'fixed']*3
            g[k] = False
            g[3 + k] = kind == 'fixed'
            m.def_support('N%d' % n, *g)
        m.add_node_load('N%d' % n, ends[axis], -Pc, 'K')
        if kind == 'cantilever':
            m.add_node_load('N%d' % n, ('FX', 'FY', 'FZ')[gi], Q*np.sign(ld[gi]), 'K')
        for i in range(n):
            m.add_member_dist_load('M%d' % i, bend, q, q, case='K')
        with ops.quiet():
            m.analyze_PDelta()
        rec.step()
        rec.state((key, n))
        if n == 1 and kind != 'cantilever':
            continue
        x = D(m.nodes['N%d' % (n if kind == 'cantilever' else n//2)])[gi]*np.sign(ld[gi])
        mem, at = (m.members['M0'], 0.) if kind != 'simple' else (m.members['M%d' % (n//2)], 0.)
        got = mem.moment('Mz' if bend == 'Fy' else 'My', at, 'A')
        errs.append({'deflection': x/wx - 1, 'moment': abs(got)/abs(Mx) - 1})
    judge(rec, key, errs, .01, 'beam-column %s' % case[1:])


def run(case, rec):
    rec.history = case
    rec.quick, case = not case[-1], case[:-1]
    key = ':'.join(str(c).replace(' ', '') for c in case)
    {'ss': plate, 'clamped': plate, 'strip': strip, 'annulus': annulus, 'cylinder': cylinder, 'cone': cone, 'tank': tank, 'box': box, 'column': column}[case[0]](rec, case, key)
