"""Reference model: an independent description and solution of the structures PyNite analyses.

Nothing here imports PyNite.  Members carry explicit extra unknowns for released ends (no static
condensation), consistent loads are integrated with Gauss quadrature from Hermite functions (no
closed-form tables), section forces come from statics of the cut and deflections from integrating
curvature polynomials.  One-way elements are solved by enumerating activity patterns.
"""
import copy
import itertools

import numpy as np

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
NL = {'FX': 0, 'FY': 1, 'FZ': 2, 'MX': 3, 'MY': 4, 'MZ': 5}
LOC = {'Fx': 0, 'Fy': 1, 'Fz': 2, 'Mx': 3, 'My': 4, 'Mz': 5}
_GX, _GW = np.polynomial.legendre.leggauss(4)


class Unstable(Exception):
    """the structure (with its unknowns `free` and their stiffness K and loads F) can move without resistance"""

    def __init__(self, msg, K=None, F=None, free=(), nn=0, names=()):
        super().__init__(msg)
        self.K, self.F, self.free, self.nn, self.names = K, F, free, nn, names

    def excitation(self):
        """(largest share of the loads acting along a mechanism, smallest stiffness that is not a mechanism)"""
        dg = np.sqrt(np.abs(np.diag(self.K)))
        one = np.where(dg == 0, np.median(dg[dg > 0]) if (dg > 0).any() else 1.0, dg)
        w, v = np.linalg.eigh(self.K/np.outer(one, one))
        f = self.F/one
        if not np.abs(f).max() > 0:
            return 0.0, 1.0
        null = np.abs(w) < 1e-10*max(np.abs(w).max(), 1e-30)
        return float(np.abs(v[:, null].T @ f).max()/np.linalg.norm(f)), float(np.abs(w[~null]).min()) if (~null).any() else 0.0

    def residual(self, D):
        """out of balance forces of the nodal displacements D, relative to the loads"""
        g = [k for k, d in enumerate(self.free) if d < self.nn]
        e = [k for k, d in enumerate(self.free) if d >= self.nn]
        x = np.array([D[self.names[self.free[k]//6]][self.free[k] % 6] for k in g])
        r = self.F[g] - self.K[np.ix_(g, g)] @ x
        if e:
            z = np.linalg.lstsq(self.K[np.ix_(e, e)], self.F[e] - self.K[np.ix_(e, g)] @ x, rcond=1e-11)[0]
            r = np.concatenate([r - self.K[np.ix_(g, e)] @ z, self.F[e] - self.K[np.ix_(e, g)] @ x - self.K[np.ix_(e, e)] @ z])
        return float(np.abs(r).max()/max(np.abs(self.F).max(), 1e-12))


def local_axes(pi, pj, aux=None):
    """Rows: local x, y, z unit vectors in global components."""
    pi, pj = np.array(pi, float), np.array(pj, float)
    x = (pj - pi) / np.linalg.norm(pj - pi)
    if aux is not None:
        z0 = np.array(aux, float) - pi
        z = z0 - x * (z0 @ x)
        z /= np.linalg.norm(z)
        return np.array([x, np.cross(z, x), z])
    if abs(x[0]) < 1e-9 and abs(x[2]) < 1e-9:
        up = 1.0 if x[1] > 0 else -1.0
        return np.array([x, [-up, 0, 0], [0, 0, 1.0]])
    z = np.cross(x, [0, 1.0, 0])
    z /= np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def hermite(s, L):
    """Transverse shape functions (v1, t1, v2, t2) and their derivatives at s."""
    r = s / L
    N = np.array([1 - 3*r**2 + 2*r**3, L*(r - 2*r**2 + r**3), 3*r**2 - 2*r**3, L*(r**3 - r**2)])
    dN = np.array([(-6*r + 6*r**2)/L, 1 - 4*r + 3*r**2, (6*r - 6*r**2)/L, 3*r**2 - 2*r])
    return N, dN


def shape_rows(s, L):
    """6x12 matrix: local displacements/rotations at s from the 12 local end displacements."""
    N, dN = hermite(s, L)
    B = np.zeros((6, 12))
    B[0, 0], B[0, 6] = 1 - s/L, s/L
    B[1, [1, 5, 7, 11]] = N
    B[2, [2, 4, 8, 10]] = N * [1, -1, 1, -1]
    B[3, 3], B[3, 9] = 1 - s/L, s/L
    B[4, [2, 4, 8, 10]] = -dN * [1, -1, 1, -1]
    B[5, [1, 5, 7, 11]] = dN
    return B


def beam_k(E, G, A, Iy, Iz, J, L):
    """Stiffness by integrating curvature energy (2-pt Gauss is exact for cubic shapes)."""
    k = np.zeros((12, 12))
    bu = np.zeros(12)
    bu[0], bu[6] = -1/L, 1/L
    k += E*A*L*np.outer(bu, bu)
    bt = np.zeros(12)
    bt[3], bt[9] = -1/L, 1/L
    k += G*J*L*np.outer(bt, bt)
    g = 1/np.sqrt(3)
    for t in (-g, g):
        r = (1 + t)/2
        c = np.array([(-6 + 12*r)/L**2, (-4 + 6*r)/L, (6 - 12*r)/L**2, (6*r - 2)/L])
        bv = np.zeros(12)
        bv[[1, 5, 7, 11]] = c
        bw = np.zeros(12)
        bw[[2, 4, 8, 10]] = c*[1, -1, 1, -1]
        k += (E*Iz*np.outer(bv, bv) + E*Iy*np.outer(bw, bw))*L/2
    return k


def beam_kg(P, A, Iy, Iz, L):
    """Geometric stiffness for axial tension P: integral of P (v'^2 + w'^2 + Ip/A phi'^2)."""
    k = np.zeros((12, 12))
    for t, w in zip(_GX, _GW):
        s = (1 + t)/2*L
        _, dN = hermite(s, L)
        bv = np.zeros(12)
        bv[[1, 5, 7, 11]] = dN
        bw = np.zeros(12)
        bw[[2, 4, 8, 10]] = dN*[1, -1, 1, -1]
        k += P*w*L/2*(np.outer(bv, bv) + np.outer(bw, bw))
    bt = np.zeros(12)
    bt[3], bt[9] = -1/L, 1/L
    return k + P*(Iy + Iz)/A*L*np.outer(bt, bt)


class Elem:
    """One beam element between two consecutive nodes of a physical member."""
    def __init__(self, owner, ni, nj, a, b, R, props, rel):
        self.owner, self.ni, self.nj, self.a, self.b = owner, ni, nj, a, b
        self.L = b - a
        self.R = R
        self.E, self.G, self.A, self.Iy, self.Iz, self.J = props
        self.rel = rel
        self.pt, self.dist = [], []        # local-component loads, local coordinates

    def k(self):
        return beam_k(self.E, self.G, self.A, self.Iy, self.Iz, self.J, self.L)

    def q(self):
        q = np.zeros(12)
        for s, v in self.pt:
            q += shape_rows(s, self.L).T @ v
        for x1, x2, v1, v2 in self.dist:
            for t, w in zip(_GX, _GW):
                s = x1 + (x2 - x1)*(1 + t)/2
                v = v1 + (v2 - v1)*(1 + t)/2
                q += shape_rows(s, self.L)[:3].T @ v * (w*(x2 - x1)/2)
        return q


class Ref:
    """Abstract model driven by the same operations as PyNite."""

    def __init__(self):
        self.nodes, self.aux, self.mats, self.secs = {}, {}, {}, {}
        self.members, self.springs, self.combos = {}, {}, {}
        self.shells = {}      # (kind, name) -> dict

    def clone(self):
        return copy.deepcopy(self)

    # -- operations --------------------------------------------------------------
    def apply(self, op):
        k, a = op[0], op[1:]
        f = getattr(self, 'op_' + k, None)
        if f:
            f(*a)

    def op_node(self, n, X, Y, Z):
        self.nodes[n] = dict(p=(float(X), float(Y), float(Z)), sup=[False]*6, spr={}, enf=[None]*6, loads=[])

    def op_aux(self, n, X, Y, Z):
        self.aux[n] = (float(X), float(Y), float(Z))

    def op_mat(self, n, E, G, nu, rho, *r):
        self.mats[n] = (E, G, nu, rho)

    def op_sec(self, n, A, Iy, Iz, J):
        self.secs[n] = (A, Iy, Iz, J)

    def op_member(self, n, i, j, mat, Iy, Iz, J, A, kw=None):
        kw = kw or {}
        if kw.get('section_name'):
            A, Iy, Iz, J = self.secs[kw['section_name']]
        self.members[n] = dict(i=i, j=j, mat=mat, Iy=Iy, Iz=Iz, J=J, A=A, aux=kw.get('aux_node'),
                               to=kw.get('tension_only', False), co=kw.get('comp_only', False),
                               rel=[False]*12, pt=[], dist=[])

    def op_setmember(self, n, attr, v):
        self.members[n][attr] = v

    def op_set(self, kind, n, attr, v):
        if kind in ('node', 'aux'):
            p = list(self.nodes[n]['p'] if kind == 'node' else self.aux[n])
            p['XYZ'.index(attr)] = float(v)
            if kind == 'node':
                self.nodes[n]['p'] = tuple(p)
            else:
                self.aux[n] = tuple(p)
        else:
            d = {'member': self.members, 'spring': self.springs}.get(kind)
            key = {'kx_mod': 'kx', 'ky_mod': 'ky', 'tension_only': 'to', 'comp_only': 'co'}.get(attr, attr)
            (self.shells[(kind, n)] if d is None else d[n])[key] = v

    def op_spring(self, n, i, j, ks, kw=None):
        kw = kw or {}
        self.springs[n] = dict(i=i, j=j, ks=ks, to=kw.get('tension_only', False), co=kw.get('comp_only', False))

    def op_quad(self, n, i, j, m, k, t, mat, kw=None):
        kw = kw or {}
        self.shells[('quad', n)] = dict(n=(i, j, m, k), t=t, mat=mat, kx=kw.get('kx_mod', 1.0), ky=kw.get('ky_mod', 1.0), press=[])

    def op_plate(self, n, i, j, m, k, t, mat, kw=None):
        kw = kw or {}
        self.shells[('plate', n)] = dict(n=(i, j, m, k), t=t, mat=mat, kx=kw.get('kx_mod', 1.0), ky=kw.get('ky_mod', 1.0), press=[])

    def op_support(self, n, s):
        self.nodes[n]['sup'] = [bool(x) for x in (list(s) + [False]*6)[:6]]

    def op_sspring(self, n, dof, k, d=None):
        self.nodes[n]['spr'][DOFS.index(dof)] = (float(k), d)

    def op_disp(self, n, dof, v):
        self.nodes[n]['enf'][DOFS.index(dof)] = v

    def op_release(self, m, r):
        self.members[m]['rel'] = [bool(x) for x in (list(r) + [False]*12)[:12]]

    def op_combo(self, n, f, tags=None):
        self.combos[n] = (dict(f), tags)

    def op_nload(self, n, d, P, case='Case 1'):
        self.nodes[n]['loads'].append((d, P, case))

    def length(self, m):
        m = self.members[m]
        return float(np.linalg.norm(np.subtract(self.nodes[m['j']]['p'], self.nodes[m['i']]['p'])))

    def op_ptload(self, m, d, P, x, case='Case 1'):
        self.members[m]['pt'].append((d, P, x, case))

    def op_dload(self, m, d, w1, w2, x1=None, x2=None, case='Case 1'):
        x1 = 0 if x1 is None else x1
        x2 = self.length(m) if x2 is None else x2
        self.members[m]['dist'].append((d, w1, w2, x1, x2, case))

    def op_selfw(self, d, factor, case='Case 1'):
        for n, m in self.members.items():
            w = factor*self.mats[m['mat']][3]*m['A']
            self.op_dload(n, d, w, w, case=case)

    def op_qpress(self, n, p, case='Case 1'):
        self.shells[('quad', n)]['press'].append((p, case))

    def op_ppress(self, n, p, case='Case 1'):
        self.shells[('plate', n)]['press'].append((p, case))

    def op_del_loads(self):
        for m in self.members.values():
            m['pt'], m['dist'] = [], []
        for n in self.nodes.values():
            n['loads'] = []
        for s in self.shells.values():
            s['press'] = []

    def op_del_node(self, n):
        self.nodes.pop(n)
        self.members = {k: m for k, m in self.members.items() if n not in (m['i'], m['j'])}
        self.springs = {k: m for k, m in self.springs.items() if n not in (m['i'], m['j'])}
        self.shells = {k: s for k, s in self.shells.items() if n not in s['n']}

    def op_del_aux(self, n):
        self.aux.pop(n)
        for m in self.members.values():
            if m['aux'] == n:
                m['aux'] = None

    def op_del_member(self, n):
        self.members.pop(n)

    def op_del_spring(self, n):
        self.springs.pop(n)

    def op_merge(self, tol=0.001):
        names = list(self.nodes)
        gone = {}
        for a, n1 in enumerate(names):
            if n1 in gone:
                continue
            for n2 in names[a+1:]:
                if n2 in gone:
                    continue
                A, B = self.nodes[n1], self.nodes[n2]
                if np.linalg.norm(np.subtract(A['p'], B['p'])) > tol:
                    continue
                gone[n2] = n1
                A['sup'] = [x or y for x, y in zip(A['sup'], B['sup'])]
                for d, v in B['spr'].items():
                    A['spr'][d] = v
                for d in range(6):
                    if A['enf'][d] is None:
                        A['enf'][d] = B['enf'][d]
                A['loads'] = A['loads'] + B['loads']
        for n2 in gone:
            self.nodes.pop(n2)
        g = lambda n: gone.get(n, n)
        for m in list(self.members.values()) + list(self.springs.values()):
            m['i'], m['j'] = g(m['i']), g(m['j'])
        for s in self.shells.values():
            s['n'] = tuple(g(n) for n in s['n'])

    # -- discretisation ----------------------------------------------------------
    def chain(self, name):
        """Nodes on the member's axis, ordered: [(node, distance)]"""
        m = self.members[name]
        pi, pj = np.array(self.nodes[m['i']]['p']), np.array(self.nodes[m['j']]['p'])
        L = np.linalg.norm(pj - pi)
        ex = (pj - pi)/L
        out = [(m['i'], 0.0), (m['j'], L)]
        for n, nd in self.nodes.items():
            if n in (m['i'], m['j']):
                continue
            v = np.array(nd['p']) - pi
            s = v @ ex
            if 1e-9*L < s < L*(1 - 1e-9) and np.linalg.norm(v - s*ex) < 1e-7*L:
                out.append((n, float(s)))
        return sorted(out, key=lambda t: t[1])

    def elements(self, combo):
        cf = self.combos[combo][0]
        out = {}
        for name, m in self.members.items():
            E, G = self.mats[m['mat']][:2]
            pi, pj = self.nodes[m['i']]['p'], self.nodes[m['j']]['p']
            R = local_axes(pi, pj, self.aux[m['aux']] if m['aux'] else None)
            if m['aux']:
                # sub-elements of a straight member share its local axes
                pass
            ch = self.chain(name)
            els = []
            for c in range(len(ch) - 1):
                (na, a), (nb, b) = ch[c], ch[c+1]
                rel = [False]*12
                if c == 0:
                    rel[:6] = m['rel'][:6]
                if c == len(ch) - 2:
                    rel[6:] = m['rel'][6:]
                e = Elem(name, na, nb, a, b, R, (E, G, m['A'], m['Iy'], m['Iz'], m['J']), rel)
                last = c == len(ch) - 2
                for d, P, x, case in m['pt']:
                    f = cf.get(case)
                    if f is None:
                        continue
                    if (a - 1e-9 <= x < b - 1e-9) or (last and abs(x - b) <= 1e-9):
                        e.pt.append((x - a, f*P*local_vec(d, R)))
                for d, w1, w2, x1, x2, case in m['dist']:
                    f = cf.get(case)
                    if f is None or x2 <= x1:
                        continue
                    lo, hi = max(x1, a), min(x2, b)
                    if hi - lo <= 1e-12:
                        continue
                    w = lambda x: w1 + (w2 - w1)*(x - x1)/(x2 - x1)
                    v = local_vec(d, R)[:3]
                    e.dist.append((lo - a, hi - a, f*w(lo)*v, f*w(hi)*v))
                els.append(e)
            out[name] = els
        return out

    # -- solution ----------------------------------------------------------------
    def solve(self, combo, inactive=frozenset(), pdelta=False, axial=None):
        """inactive: set of ('m', name) / ('s', name) / ('n', node, dof) not resisting."""
        names = list(self.nodes)
        idx = {n: 6*i for i, n in enumerate(names)}
        els = self.elements(combo)
        ndof = 6*len(names)
        rows = []
        for name, lst in els.items():
            for e in lst:
                e.B = None
                ex = {}
                if ('m', name) not in inactive:
                    for d in range(12):
                        if e.rel[d]:
                            ex[d] = ndof
                            ndof += 1
                e.ex = ex
                rows.append(e)
        K = np.zeros((ndof, ndof))
        F = np.zeros(ndof)
        cf = self.combos[combo][0]
        T12 = lambda R: np.kron(np.eye(4), R)
        for e in rows:
            T = T12(e.R)
            if ('m', e.owner) in inactive:
                # no stiffness left: the element only hands its loads to its end nodes
                q, k, rl = e.q(), e.k(), [d for d in range(12) if e.rel[d]]
                if rl:
                    q = q - k[:, rl] @ np.linalg.pinv(k[np.ix_(rl, rl)]) @ q[rl]
                    q[rl] = 0
                q = T.T @ q
                F[idx[e.ni]:idx[e.ni]+6] += q[:6]
                F[idx[e.nj]:idx[e.nj]+6] += q[6:]
                continue
            B = np.zeros((12, ndof))
            i, j = idx[e.ni], idx[e.nj]
            for d in range(12):
                if d in e.ex:
                    B[d, e.ex[d]] = 1
                else:
                    if d < 6:
                        B[d, i:i+6] = T[d, :6]
                    else:
                        B[d, j:j+6] = T[d, 6:]
            e.B = B
            k = e.k()
            if pdelta:
                e.P = axial[(e.owner, e.a)]
                k = k + beam_kg(e.P, e.A, e.Iy, e.Iz, e.L)
            e.kk = k
            K += B.T @ k @ B
            F += B.T @ e.q()
        for name, s in self.springs.items():
            if ('s', name) in inactive:
                continue
            ex = np.subtract(self.nodes[s['j']]['p'], self.nodes[s['i']]['p'])
            ex = ex/np.linalg.norm(ex)
            b = np.zeros(ndof)
            b[idx[s['i']]:idx[s['i']]+3] = -ex
            b[idx[s['j']]:idx[s['j']]+3] += ex
            K += s['ks']*np.outer(b, b)
        if self.shells:
            from . import shell
            for (kind, name), s in self.shells.items():
                P = [self.nodes[n]['p'] for n in s['n']]
                ke, R = shell.global_k(kind, P, s, self.mats[s['mat']])
                ii = np.concatenate([np.arange(idx[n], idx[n]+6) for n in s['n']])
                K[np.ix_(ii, ii)] += ke
                p = sum(cf[c]*v for v, c in s['press'] if c in cf)
                if p:
                    F[ii] += shell.global_q(kind, P, p)
        Kraw, Fraw = K.copy(), F.copy()
        known, val = [], []
        for n, nd in self.nodes.items():
            for d in range(6):
                g = idx[n] + d
                for (dd, P, case) in nd['loads']:
                    if NL[dd] == d and case in cf:
                        F[g] += cf[case]*P
                if d in nd['spr'] and ('n', n, d) not in inactive:
                    K[g, g] += nd['spr'][d][0]
                if nd['enf'][d] is not None:
                    known.append(g)
                    val.append(float(nd['enf'][d]))
                elif nd['sup'][d]:
                    known.append(g)
                    val.append(0.0)
        free = [g for g in range(ndof) if g not in set(known)]
        u = np.zeros(ndof)
        u[known] = val
        if free:
            Kff = K[np.ix_(free, free)]
            rhs = F[free] - K[np.ix_(free, known)] @ np.array(val) if known else F[free]
            dg = np.sqrt(np.abs(np.diag(Kff)))
            if (dg == 0).any():
                raise Unstable('zero stiffness', Kff, rhs, free, 6*len(names), names)
            Ks = Kff/np.outer(dg, dg)
            cond = np.linalg.cond(Ks)
            if not np.isfinite(cond) or cond > 1e12:
                raise Unstable('cond %g' % cond, Kff, rhs, free, 6*len(names), names)
            u[free] = np.linalg.solve(Ks, rhs/dg)/dg
        sol = Solution()
        sol.ref, sol.combo, sol.inactive = self, combo, inactive
        sol.fs = float(np.abs(F).max()) if len(F) else 0.0      # magnitude of the applied loads
        sol.D = {n: u[idx[n]:idx[n]+6].copy() for n in names}
        R = Kraw @ u - Fraw
        sol.R = {}
        for n, nd in self.nodes.items():
            r = np.zeros(6)
            for d in range(6):
                g = idx[n] + d
                if nd['sup'][d]:
                    r[d] = R[g] - sum(cf[c]*P for dd, P, c in nd['loads'] if NL[dd] == d and c in cf)
                if d in nd['spr'] and ('n', n, d) not in inactive:
                    r[d] -= nd['spr'][d][0]*u[g]
            sol.R[n] = r
        sol.els = els
        for e in rows:
            if e.B is None:
                e.d = e.f = None
                continue
            e.d = e.B @ u
            e.f = e.kk @ e.d - e.q()
        return sol

    def solve_pdelta(self, combo, inactive=frozenset()):
        s1 = self.solve(combo, inactive)
        ax = {}
        for name, lst in s1.els.items():
            for e in lst:
                if e.d is not None:
                    ax[(name, e.a)] = e.E*e.A/e.L*(e.d[6] - e.d[0])
        return self.solve(combo, inactive, pdelta=True, axial=ax), ax

    # -- one-way elements ----------------------------------------------------------
    def one_way(self):
        out = [('m', n) for n, m in self.members.items() if m['to'] or m['co']]
        out += [('s', n) for n, s in self.springs.items() if s['to'] or s['co']]
        out += [('n', n, d) for n, nd in self.nodes.items() for d, (k, sg) in nd['spr'].items() if sg]
        return out

    def spring_axial(self, sol, name):
        """compression-positive force the spring would carry if active"""
        s = self.springs[name]
        ex = np.subtract(self.nodes[s['j']]['p'], self.nodes[s['i']]['p'])
        ex = ex/np.linalg.norm(ex)
        return s['ks']*((sol.D[s['i']][:3] - sol.D[s['j']][:3]) @ ex)

    def patterns(self):
        """every activity pattern (set of inactive one-way elements)"""
        ow = self.one_way()
        for r in range(len(ow) + 1):
            for c in itertools.combinations(ow, r):
                yield frozenset(c)


def local_vec(d, R):
    v = np.zeros(6)
    if d in LOC:
        v[LOC[d]] = 1
    else:
        i = NL[d]
        if i < 3:
            v[:3] = R[:, i]
        else:
            v[3:] = R[:, i - 3]
    return v


class Solution:
    """Results on physical members, measured from the member's i-end."""

    def cut_in2(self, e, x, side=1):
        """first-order section forces of one element at x of its member, with PD = compression carried by it"""
        return dict(self._cut(e, x, side), PD=-e.P)

    def cut(self, member, x, side=1):
        """Section forces just past (side=1) or before (side=-1) x:
        dict with PyNite's conventions Fx (compression +), Fy, Fz, Mx, My, Mz."""
        lst = self.els[member]
        eps = 1e-7
        for n, e in enumerate(lst):
            if x + side*eps <= e.b or n == len(lst) - 1:
                break
        return self._cut(e, x, side)

    def _cut(self, e, x, side=1):
        if e.f is None:
            return None
        eps = 1e-7
        s = x - e.a
        f = e.f
        acc = np.zeros(6)
        acc[:3] = f[:3]
        acc[3:] = f[3:6]
        acc[5] -= f[1]*s
        acc[4] += f[2]*s
        for xs, v in e.pt:
            if xs <= s + side*eps:
                acc[:3] += v[:3]
                acc[3:] += v[3:]
                acc[5] -= v[1]*(s - xs)
                acc[4] += v[2]*(s - xs)
        for x1, x2, v1, v2 in e.dist:
            hi = min(x2, s)
            if hi <= x1:
                continue
            vh = v1 + (v2 - v1)*(hi - x1)/(x2 - x1)
            F = (v1 + vh)/2*(hi - x1)
            acc[:3] += F
            # first moment about the cut, linear load: exact with 2-pt Gauss
            for t, w in zip((-1/3**.5, 1/3**.5), (1, 1)):
                xx = x1 + (hi - x1)*(1 + t)/2
                vv = v1 + (v2 - v1)*(xx - x1)/(x2 - x1)
                dF = vv*w*(hi - x1)/2
                acc[5] -= dF[1]*(s - xx)
                acc[4] += dF[2]*(s - xx)
        return dict(Fx=acc[0], Fy=acc[1], Fz=acc[2], Mx=acc[3], My=-acc[4], Mz=acc[5])

    def breaks(self, member):
        b = set()
        for e in self.els[member]:
            b |= {e.a, e.b}
            b |= {e.a + s for s, _ in e.pt}
            for x1, x2, *_ in e.dist:
                b |= {e.a + x1, e.a + x2}
        return sorted(b)

    def extremes(self, member):
        """{quantity: (max, min)} of the section forces over the whole member, exact: between two breaks every
        diagram is a polynomial of degree <= 3 recovered from interior values."""
        b = self.breaks(member)
        L = b[-1]
        out = {}
        for lo, hi in zip(b[:-1], b[1:]):
            if hi - lo < 1e-9*L:
                continue
            ts = np.cos((np.arange(6) + .5)/6*np.pi)
            vals = [self.cut(member, (lo + hi)/2 + (hi - lo)/2*t) for t in ts]
            if vals[0] is None:
                return None
            for q in vals[0]:
                p = np.polyfit(ts, [v[q] for v in vals], 3)
                dp = np.polyder(p)
                sc = np.abs(p).max()
                dp = np.where(np.abs(dp) < 1e-11*sc, 0, dp)
                c = [t.real for t in np.roots(dp) if abs(t.imag) < 1e-6 and -1 <= t.real <= 1]
                v = np.polyval(p, np.array(c + [-1.0, 1.0]))
                mx, mn = out.get(q, (-np.inf, np.inf))
                out[q] = (max(mx, v.max()), min(mn, v.min()))
        return out

    def defl(self, member, x):
        """(dx, dy, dz) local absolute deflections at x by exact integration of curvature."""
        lst = self.els[member]
        for n, e in enumerate(lst):
            if x <= e.b + 1e-9 or n == len(lst) - 1:
                break
        if e.d is None:
            return None
        s_end = x - e.a
        u, v, w = e.d[0], e.d[1], e.d[2]
        tv, tw = e.d[5], -e.d[4]
        pts = sorted({0.0, s_end} | {p for p, _ in e.pt if 0 < p < s_end} |
                     {p for x1, x2, *_ in e.dist for p in (x1, x2) if 0 < p < s_end})
        g, gw = np.polynomial.legendre.leggauss(4)
        for a, b in zip(pts[:-1], pts[1:]):
            h = b - a
            for t, wt in zip(g, gw):
                s = a + h*(1 + t)/2
                c = self.cut_in(e, s)
                ww = wt*h/2
                u -= c['Fx']/(e.E*e.A)*ww
                v += (b - s)*(-c['Mz']/(e.E*e.Iz))*ww
                w += (b - s)*(-c['My']/(e.E*e.Iy))*ww
            v += tv*h
            w += tw*h
            for t, wt in zip(g, gw):
                s = a + h*(1 + t)/2
                c = self.cut_in(e, s)
                ww = wt*h/2
                tv += -c['Mz']/(e.E*e.Iz)*ww
                tw += -c['My']/(e.E*e.Iy)*ww
        return np.array([u, v, w])

    def cut_in(self, e, s):
        return self.cut(e.owner, e.a + s, 1)
