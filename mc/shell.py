"""Reference shell elements (no PyNite import).

Bending of the rectangular plate: the 12-term polynomial (ACM/Melosh) element, integrated numerically.
Bending of the quadrilateral: Katili's DKMQ element written from its side-by-side definition.
Membrane: bilinear plane stress.  Drilling: weak spring, smallest rotational diagonal / 1000.
Local axes: x from i to j, z = x cross (i->n), y = z cross x.
Local dof order per node: u v w rx ry rz, with rx = w,y and ry = -w,x for a rigid tilt.
"""
import numpy as np

GP2 = [(a/3**.5, b/3**.5) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
_X4, _W4 = np.polynomial.legendre.leggauss(4)
SIGN = [(-1, -1), (1, -1), (1, 1), (-1, 1)]


def axes(P):
    P = np.array(P, float)
    x = P[1] - P[0]
    x = x/np.linalg.norm(x)
    z = np.cross(x, P[3] - P[0])
    z = z/np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def local_xy(P):
    R = axes(P)
    return (np.array(P, float) - np.array(P[0], float)) @ R.T[:, :2], R


def shp(r, s):
    N = np.array([(1 + a*r)*(1 + b*s)/4 for a, b in SIGN])
    dN = np.array([[a*(1 + b*s)/4 for a, b in SIGN], [b*(1 + a*r)/4 for a, b in SIGN]])
    return N, dN


def jac(xy, r, s):
    return shp(r, s)[1] @ xy


def D_plane(E, nu, kx=1.0, ky=1.0):
    o = nu*E*(kx*ky)**.5
    return np.array([[E*kx, o, 0], [o, E*ky, 0], [0, 0, E*(1 - nu)/2]])/(1 - nu**2)


def B_mem(xy, r, s):
    d = np.linalg.solve(jac(xy, r, s), shp(r, s)[1])
    B = np.zeros((3, 24))
    for n in range(4):
        B[0, 6*n], B[1, 6*n+1] = d[0, n], d[1, n]
        B[2, 6*n], B[2, 6*n+1] = d[1, n], d[0, n]
    return B


def dkmq(xy, t, nu, r, s):
    """curvature (3x24) and shear strain (2x24) matrices of the DKMQ element"""
    J = jac(xy, r, s)
    Ji = np.linalg.inv(J)
    d = Ji @ shp(r, s)[1]
    Bb, Bs = np.zeros((3, 24)), np.zeros((2, 24))
    for n in range(4):                       # beta_x = ry, beta_y = -rx
        Bb[0, 6*n+4] += d[0, n]
        Bb[1, 6*n+3] += -d[1, n]
        Bb[2, 6*n+4] += d[1, n]
        Bb[2, 6*n+3] += -d[0, n]
    sides = [(0, 1), (1, 2), (2, 3), (3, 0)]
    dP = np.array([[-r*(1 - s), (1 - s*s)/2, -r*(1 + s), -(1 - s*s)/2],
                   [-(1 - r*r)/2, -s*(1 + r), (1 - r*r)/2, -s*(1 - r)]])
    dP = Ji @ dP
    gam = []
    for k, (a, b) in enumerate(sides):
        v = xy[b] - xy[a]
        L = np.hypot(*v)
        C, S = v/L
        g = np.zeros(24)                     # mean of slope + rotation along the side
        g[6*a+2], g[6*b+2] = -1/L, 1/L
        for n in (a, b):
            g[6*n+4] += C/2
            g[6*n+3] += -S/2
        phi = 2/(5/6*(1 - nu))*(t/L)**2
        db = -1.5/(1 + phi)*g
        Bb[0] += dP[0, k]*C*db
        Bb[1] += dP[1, k]*S*db
        Bb[2] += (dP[1, k]*C + dP[0, k]*S)*db
        gam.append(-2/3*phi*db*L/2)
    # covariant shear strains: constant along each side, linear between opposite sides
    gr = (1 - s)/2*gam[0] - (1 + s)/2*gam[2]
    gs = (1 + r)/2*gam[1] - (1 - r)/2*gam[3]
    Bs[:] = Ji @ np.array([gr, gs])
    return Bb, Bs


EXP = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3), (3, 1), (1, 3)]


def mono(x, y, dx, dy):
    out = []
    for a, b in EXP:
        c = 1.0
        aa, bb = a, b
        for _ in range(dx):
            c *= aa
            aa -= 1
        for _ in range(dy):
            c *= bb
            bb -= 1
        out.append(0.0 if c == 0 else c*x**aa*y**bb)
    return np.array(out)


def acm_shape(xy):
    """12x12 map from bending dofs (w, rx, ry per node) to polynomial coefficients"""
    C = []
    for x, y in xy:
        C += [mono(x, y, 0, 0), mono(x, y, 0, 1), -mono(x, y, 1, 0)]
    return np.linalg.inv(np.array(C))


BEND = [6*n + k for n in range(4) for k in (2, 3, 4)]


def acm_Q(x, y):
    """rows -w,xx  -w,yy  -2w,xy"""
    return -np.array([mono(x, y, 2, 0), mono(x, y, 0, 2), 2*mono(x, y, 1, 1)])


def local_k(kind, P, t, E, nu, kx=1.0, ky=1.0):
    xy, R = local_xy(P)
    k = np.zeros((24, 24))
    Db = D_plane(E, nu)*t**3/12
    if kind == 'quad':
        Ds = np.eye(2)*E*t*5/6/(2*(1 + nu))
        for r, s in GP2:
            Bb, Bs = dkmq(xy, t, nu, r, s)
            k += (Bb.T @ Db @ Bb + Bs.T @ Ds @ Bs)*np.linalg.det(jac(xy, r, s))
    else:
        Ci = acm_shape(xy)
        kb = np.zeros((12, 12))
        for r, wr in zip(_X4, _W4):
            for s, ws in zip(_X4, _W4):
                x, y = shp(r, s)[0] @ xy
                Q = acm_Q(x, y) @ Ci
                kb += Q.T @ Db @ Q*wr*ws*np.linalg.det(jac(xy, r, s))
        k[np.ix_(BEND, BEND)] = kb
    rz = min(k[i, i] for n in range(4) for i in (6*n+3, 6*n+4))/1000
    for n in range(4):
        k[6*n+5, 6*n+5] += rz
    Dm = D_plane(E, nu, kx, ky)*t
    for r, s in GP2:
        B = B_mem(xy, r, s)
        k += B.T @ Dm @ B*np.linalg.det(jac(xy, r, s))
    return k, R


def T24(R):
    return np.kron(np.eye(8), R)


def global_k(kind, P, s, mat):
    k, R = local_k(kind, P, s['t'], mat[0], mat[2], s['kx'], s['ky'])
    T = T24(R)
    return T.T @ k @ T, R


def global_q(kind, P, p):
    """work-equivalent nodal loads of a uniform pressure p acting along local +z"""
    xy, R = local_xy(P)
    q = np.zeros(24)
    Ci = acm_shape(xy) if kind == 'plate' else None
    for r, wr in zip(_X4, _W4):
        for s, ws in zip(_X4, _W4):
            N = shp(r, s)[0]
            w = p*wr*ws*np.linalg.det(jac(xy, r, s))
            if kind == 'quad':
                q[2::6] += N*w
            else:
                q[BEND] += mono(*(N @ xy), 0, 0) @ Ci*w
    return T24(R).T @ q


def extrap(vals, r, s):
    """bilinear field through the four Gauss-point values, evaluated at (r, s)"""
    g = 3**.5
    return sum(v*(1 + a*r*g)*(1 + b*s*g)/4 for v, (a, b) in zip(vals, SIGN))


def quad_results(P, t, E, nu, kx, ky, D, r, s):
    """(moment[3], shear[2], membrane stress[3]) at natural coordinates, Gauss extrapolation"""
    xy, R = local_xy(P)
    d = T24(R) @ D
    Db = D_plane(E, nu)*t**3/12
    Ds = np.eye(2)*E*t*5/6/(2*(1 + nu))
    m = [Db @ dkmq(xy, t, nu, a, b)[0] @ d for a, b in GP2]
    q = [Ds @ dkmq(xy, t, nu, a, b)[1] @ d for a, b in GP2]
    n = [D_plane(E, nu, kx, ky) @ B_mem(xy, a, b) @ d for a, b in GP2]
    return extrap(m, r, s), extrap(q, r, s), extrap(n, r, s)


def plate_results(P, t, E, nu, D, x, y, kx=1.0, ky=1.0):
    """(-moment, -shear as derivative of moment, membrane) of the rectangular plate at local (x, y)"""
    xy, R = local_xy(P)
    d = T24(R) @ D
    a = acm_shape(xy) @ d[BEND]
    Db = D_plane(E, nu)*t**3/12
    M = Db @ acm_Q(x, y) @ a
    dMx = Db @ -np.array([mono(x, y, 3, 0), mono(x, y, 1, 2), 2*mono(x, y, 2, 1)]) @ a
    dMy = Db @ -np.array([mono(x, y, 2, 1), mono(x, y, 0, 3), 2*mono(x, y, 1, 2)]) @ a
    Q = np.array([dMx[0] + dMy[2], dMy[1] + dMx[2]])
    w, h = xy[1][0], xy[3][1]
    r, s = 2*x/w - 1, 2*y/h - 1
    n = [D_plane(E, nu, kx, ky) @ B_mem(xy, p, q) @ d for p, q in GP2]
    return M, Q, extrap(n, r, s)
