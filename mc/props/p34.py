"""The matrices and vectors of a model and its elements are those of the analysis."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, ORIENT, member, rel, sup
from . import p08, p09
from .p33 import brk

ID = 'P34'
TITLE = 'Global and element matrices and vectors satisfy the equations they stand for'
RULE = ('every structure (and its deviations) x combination x sparse/dense x after linear, one-way and P-Delta analyses, in several orders of requests; '
        'single members: every orientation x every set of end releases x loads; every element of every structure')
ASSUMPTIONS = ['one-way support springs are read for the combination analysed last', 'rigid rotations of shell elements are not claimed (drilling springs)',
               'the geometric stiffness uses the mean axial force along each member segment']

R6 = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')


def dense(a):
    return np.asarray(a.todense() if hasattr(a, 'todense') else a, float)


def nodes_of(e):
    return [getattr(e, k) for k in ('i_node', 'j_node', 'm_node', 'n_node') if hasattr(e, k)]


def idx(e):
    return np.concatenate([n.ID*6 + np.arange(6) for n in nodes_of(e)])


def elements(m):
    """(label, element, owner) of everything that is assembled"""
    for n, s in m.springs.items():
        yield 'spring ' + n, s, s
    for n, p in m.members.items():
        for k, s in p.sub_members.items():
            yield 'member ' + k, s, p
    for n, q in m.quads.items():
        yield 'quad ' + n, q, None
    for n, q in m.plates.items():
        yield 'plate ' + n, q, None


def stiff(e):
    # (what rounding is measured against where releases leave little stiffness)
    return max(e.E*e.A, e.E*e.Iy, e.E*e.Iz)/e.L() if hasattr(e, 'Iz') else 0.


def sprung(m, last):
    """stiffness of the support springs at work, by freedom"""
    out = {}
    for n in m.nodes.values():
        for k, d in enumerate(R6):
            s = getattr(n, 'spring_' + d)
            if s[0] is not None and (s[1] is None or s[2] if last else s[1] is None):
                out[n.ID*6 + k] = float(s[0])
    return out


def rigid(m):
    """three translations and three rotations of all nodes"""
    T = np.zeros((6*len(m.nodes), 6))
    for n in m.nodes.values():
        r = np.array([n.X, n.Y, n.Z], float)
        for k in range(3):
            T[n.ID*6 + k, k] = 1
            e = np.zeros(3)
            e[k] = 1
            T[n.ID*6:n.ID*6 + 3, 3 + k] = np.cross(e, r)
            T[n.ID*6 + 3 + k, 3 + k] = 1
    return T


def look(rec, key, m, c, last=True, shells=False, order=0, Kg=None):
    """all equations of one combination"""
    N = 6*len(m.nodes)
    ids = sorted(n.ID for n in m.nodes.values())
    rec.true(key + ':ids', ids == list(range(len(ids))), 'node numbers are %s' % ids)
    got = {}
    asks = [('K', lambda: dense(m.K(c, False, False, True))), ('Kd', lambda: dense(m.K(c, False, False, False))), ('P', lambda: np.array(m.P(c), float)),
            ('FER', lambda: np.array(m.FER(c), float)), ('D', lambda: np.array(m.D(c), float)), ('Kg', lambda: dense(m.Kg(c, False, True, False))),
            ('Kgd', lambda: dense(m.Kg(c, False, False, False))), ('Kg0', lambda: dense(m.Kg(c, False, True, True)))]
    with ops.quiet():
        for k in range(len(asks)):
            n, f = asks[(k + order) % len(asks)]
            got[n] = f()
            rec.step()
    K, D, P, F = got['K'], got['D'].ravel(), got['P'].ravel(), got['FER'].ravel()
    ks = max([np.abs(K).max()] + [stiff(e) for _, e, _ in elements(m)])
    for n, a in got.items():
        rec.true(key + ':shape:' + n, a.shape == ((N, N) if n[0] == 'K' else (N, 1)), '%s has shape %s for %d nodes' % (n, a.shape, len(ids)))
    rec.close(key + ':dense', got['Kd'], K, 1e-9, ks, 'dense and sparse stiffness in ' + c)
    rec.close(key + ':symmetric', K, K.T, 1e-9, ks, 'stiffness of %s is symmetric' % c)
    rec.close(key + ':kg-dense', got['Kgd'], got['Kg'], 1e-9, max(np.abs(got['Kg']).max(), 1e-9), 'dense and sparse geometric stiffness in ' + c)
    rec.close(key + ':kg-first', got['Kg0'], 0*K, 1e-12, 1., 'geometric stiffness of the first step in ' + c)
    # the sum of the elements at work and the support springs
    S, G, FE = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N)
    sp = sprung(m, last)
    for k, v in sp.items():
        S[k, k] += v
    for lab, e, owner in elements(m):
        i = idx(e)
        on = owner is None or owner.active[c]
        if on:
            S[np.ix_(i, i)] += dense(e.K())
        if lab[:6] == 'member' and on:
            # mean axial force of the segment (positive is compression)
            L = e.L()
            if not any(e.Releases[k] for k in (0, 6)):
                d = np.array(e.d(c), float).ravel()
                G[np.ix_(i, i)] += dense(e.Kg(e.E*e.A/L*(d[6] - d[0])))
        if lab[0] != 's':
            FE[i] += np.array(e.FER(c), float).ravel()
    own = np.ones((N, N), bool)
    if not last:
        # (one-way support springs are in the state of the combination analysed last)
        for n in m.nodes.values():
            for k, d in enumerate(R6):
                s = getattr(n, 'spring_' + d)
                if s[0] is not None and s[1] is not None:
                    own[n.ID*6 + k, n.ID*6 + k] = False
    rec.close(key + ':sum', K*own, S*own, 1e-9, ks, 'stiffness of the structure and of its elements in ' + c)
    rec.close(key + ':kg-sum', got['Kg'], G, 1e-8, max(np.abs(G).max(), 1e-6), 'geometric stiffness of the structure and of its elements in ' + c)
    rec.close(key + ':fer-sum', F, FE, 1e-9, max(np.abs(FE).max(), 1e-9), 'fixed end reactions of the structure and of its elements in ' + c)
    # the whole structure moved without strain
    T = rigid(m)
    want = np.zeros((N, 6))
    for k, v in sp.items():
        want[k] = v*T[k]
    e = K @ T - want
    e[~own.all(1)] = 0
    if shells:
        e = e[:, :3]
    rec.close(key + ':rigid', e/np.abs(T[:, :e.shape[1]]).max(0), 0*e, 1e-8, ks, 'forces of a rigid motion in ' + c)
    # loads
    f = m.load_combos[c].factors
    w = np.zeros(N)
    for n in m.nodes.values():
        for d, v, case in n.NodeLoads:
            w[n.ID*6 + ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ').index(d)] += v*f.get(case, 0)
    rec.close(key + ':P', P, w, 1e-9, max(np.abs(w).max(), 1e-9), 'nodal load vector of ' + c)
    # displacements by node number
    w = np.concatenate([[getattr(n, k)[c] for k in R6] for n in sorted(m.nodes.values(), key=lambda n: n.ID)])
    rec.close(key + ':D', D, w, 1e-9, max(np.abs(w).max(), 1e-9), 'displacement vector of ' + c)
    # equilibrium
    sup_, held = np.zeros(N, bool), np.zeros(N, bool)
    for n in m.nodes.values():
        for k, d in enumerate(R6):
            sup_[n.ID*6 + k] = getattr(n, 'support_' + d)
            held[n.ID*6 + k] = sup_[n.ID*6 + k] or getattr(n, 'Enforced' + d) is not None
    k2 = K if Kg is None else K + Kg
    rest = k2 @ D - P + F
    # forces that pass through a joint, and rounding of stiff elements
    sc = max(np.abs(P).max(), np.abs(F).max(), 1e-6*np.abs(np.abs(K) @ np.abs(D)).max(), 1e-6)
    z = rest*~held
    z[~own.all(1)] = 0
    rec.close(key + ':equilibrium', z, 0*z, 1e-6, sc, 'K D - P + FER at unsupported freedoms in ' + c)
    rx = np.concatenate([[getattr(n, k)[c] for k in ops.RXN] for n in sorted(m.nodes.values(), key=lambda n: n.ID)])
    if Kg is None:
        # (the spring at a supported freedom does not move)
        w = (rx - rest)*sup_
        rec.close(key + ':reaction', w, 0*w, 1e-6, max(sc, np.abs(rx).max()), 'K D - P + FER and reactions in ' + c)
    rec.trace()
    return got


def element_laws(rec, key, m, c, forces=True):
    for lab, e, owner in elements(m):
        if owner is not None and not owner.active[c]:
            continue
        tag = '%s:%s' % (key, lab.replace(' ', '_'))
        k, T, K = dense(e.k()), dense(e.T()), dense(e.K())
        s = max(np.abs(K).max(), stiff(e))
        rec.close(tag + ':T', T @ T.T, np.eye(len(T)), 1e-9, 1., lab + ' transformation is a rotation')
        rec.true(tag + ':hand', abs(np.linalg.det(T[:3, :3]) - 1) < 1e-9, lab + ' axes are right-handed')
        rec.close(tag + ':blocks', T, np.kron(np.eye(len(T)//3), T[:3, :3]), 1e-12, 1., lab + ' every node is transformed alike')
        rec.close(tag + ':K', K, T.T @ k @ T, 1e-9, s, lab + ' stiffness in global directions')
        rec.close(tag + ':symmetric', K, K.T, 1e-8, s, lab + ' stiffness is symmetric')
        ev = np.linalg.eigvalsh((K + K.T)/2)
        rec.true(tag + ':psd', ev[0] > -1e-8*max(ev[-1], s), '%s stiffness has the eigenvalue %g (largest %g)' % (lab, ev[0], ev[-1]))
        nd = len(nodes_of(e))
        tr = K @ np.kron(np.ones((nd, 1)), np.eye(6)[:, :3])
        rec.close(tag + ':rigid', tr, 0*tr, 1e-8, s, lab + ' forces of a rigid translation')
        D = np.concatenate([[getattr(n, q)[c] for q in R6] for n in nodes_of(e)])
        rec.close(tag + ':D', np.array(e.D(c)).ravel(), D, 1e-9, max(np.abs(D).max(), 1e-12), lab + ' displacements')
        rec.close(tag + ':d', np.array(e.d(c)).ravel(), T @ D, 1e-9, max(np.abs(D).max(), 1e-12), lab + ' local displacements')
        fer = np.array(e.fer(c), float).ravel() if lab[0] != 's' else np.zeros(12)
        if lab[0] != 's':
            rec.close(tag + ':FER', np.array(e.FER(c)).ravel(), T.T @ fer, 1e-9, max(np.abs(fer).max(), 1e-9), lab + ' fixed end reactions in global directions')
        if forces:
            f = k @ (T @ D) + fer
            sc = max(np.abs(fer).max(), 1e-6*(np.abs(k) @ np.abs(T @ D)).max(), np.abs(f).max(), 1e-9)
            rec.close(tag + ':f', np.array(e.f(c)).ravel(), f, 1e-7, sc, lab + ' end forces')
        rec.close(tag + ':F', np.array(e.F(c)).ravel(), T.T @ np.array(e.f(c)).ravel(), 1e-8, max(np.abs(np.array(e.f(c))).max(), 1e-9), lab + ' end forces in global directions')
        rec.ev()


def cases(tier):
    th = tier != 'quick'
    out = []
    for o in ORIENT:
        for r in range(0, 4096, 1 if th else 37) if o in ('+X', 'XYZ') else (0,):
            if r % (128 if th else 37*8) == 0:
                out.append(['member', o, r])
    for s in frames.ALL:
        for v in frames.variants(s, 2 if th and s in ('cont', 'springs') else 1 if th or s in frames.FRAMES else 0):
            out.append(['lin', s, v])
    for s in frames.FRAMES:
        for v in frames.variants(s, 1 if th else 0):
            out.append(['pd', s, v])
    for s in p08.SETS:
        n = len(p08.SETS[s]()['ow'])
        for a in itertools.product('TC' if not th else 'TCB', repeat=n):
            out.append(['tc', s, ''.join(a)])
    for s in ('+', '-', None):
        for t in ('+', '-', None):
            out.append(['ground', s, t])
    return out


def run(case, rec):
    rec.history = case
    key = ':'.join(str(x) if not isinstance(x, list) else '+'.join(x) for x in case)
    globals()['c_' + case[0]](rec, key, case)
    rec.state(key)
    rec.outcome(key)


def combos(loads):
    return [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)] + [
        ['combo', 'all', {'K0': 1., 'K1': -1.4, 'K2': .7}], ['combo', 'none', {}], ['combo', 'part', {'K1': 2., 'K2': -.5, 'x': 9.}]]


def solvable(h):
    r = ref.Ref()
    for op in h:
        r.apply(op)
    try:
        r.solve(list(r.combos)[0])
        return True
    except ref.Unstable:
        return False


def c_lin(rec, key, case):
    h, loads = frames.history(case[1], case[2])
    h = h + combos(loads)
    shells = case[1] not in frames.FRAMES
    if not solvable(h):
        return
    m = ops.build(h)
    for k, how in enumerate((['analyze', {}], ['analyze', {'sparse': False}], ['analyze_linear', {}]) if not case[2] else (['analyze', {}],)):
        ops.apply_real(m, how)
        rec.step()
        first = {}
        for i, c in enumerate(m.load_combos):
            first[c] = look(rec, '%s:%d:%s' % (key, k, c), m, c, True, shells, order=i + 3*k)
            element_laws(rec, '%s:%d:%s' % (key, k, c), m, c)
        # asking changes nothing
        for i, c in enumerate(m.load_combos):
            again = look(rec, '%s:%d:%s:again' % (key, k, c), m, c, True, shells, order=5 - i)
            for n in again:
                rec.close('%s:%d:%s:kept:%s' % (key, k, c, n), again[n], first[c][n], 1e-12, max(np.abs(first[c][n]).max(), 1e-12), n + ' asked again')


def c_pd(rec, key, case):
    h, loads = frames.history(case[1], case[2])
    # small enough not to buckle
    h = h + combos([l for l in loads])
    if not solvable(h):
        return
    m, lin = ops.build(h), ops.build(h)
    ops.apply_real(lin, ['analyze_linear', {}])
    for sparse in ((True, False) if not case[2] else (True,)):
        try:
            ops.apply_real(m, ['pdelta', {'sparse': sparse}])
        except ValueError:
            return
        rec.step()
        for i, c in enumerate(m.load_combos):
            with ops.quiet():
                Kg = dense(lin.Kg(c, False, i % 2 == 0, False))
            by = {n.name: n.ID for n in lin.nodes.values()}
            # same node, same rows
            p = np.concatenate([by[n.name]*6 + np.arange(6) for n in sorted(m.nodes.values(), key=lambda n: n.ID)])
            Kg = Kg[np.ix_(p, p)]
            g = np.abs(Kg).max()
            rec.close('%s:%s:kg-sym' % (key, c), Kg, Kg.T, 1e-9, max(g, 1e-9), 'geometric stiffness is symmetric')
            tr = Kg @ rigid(m)[:, :3]
            rec.close('%s:%s:kg-rigid' % (key, c), tr, 0*tr, 1e-8, max(g, 1e-9), 'geometric stiffness against a rigid translation')
            look(rec, '%s:%s:%s' % (key, c, sparse), m, c, order=i, Kg=Kg)
            element_laws(rec, '%s:%s:%s' % (key, c, sparse), m, c, forces=False)


def c_tc(rec, key, case):
    s, a = case[1:]
    d = p08.SETS[s]()
    h = list(d['base'])
    for (k, n, i, j, *r), w in zip(d['ow'], a):
        kw = p08.KIND[w]
        h.append(member(n, i, j, **kw) if k == 'm' else ['spring', n, i, j, r[0], kw])
        if k == 'm':
            h.append(rel(n, '000011000011'))
    h += d.get('extra', [])
    for q, (n, f) in enumerate(d['loads']):
        h.append(['nload', n, f, 3., 'K%d' % q])
    for q, v in enumerate(itertools.product((1, 0, -1), repeat=3)):
        h.append(['combo', 'c%d' % q, {'K%d' % i: x for i, x in enumerate(v)}])
    m = ops.build(h)
    try:
        ops.apply_real(m, ['analyze', {}])
    except Exception:
        return
    rec.step()
    for i, c in enumerate(m.load_combos):
        look(rec, '%s:%s' % (key, c), m, c, order=i)
        element_laws(rec, '%s:%s' % (key, c), m, c)


def c_ground(rec, key, case):
    """a beam on support springs, one-way or not, and the combination analysed last"""
    h = [MAT] + [['node', 'N%d' % i, 4.*i, 0, 0] for i in range(5)] + [member('M%d' % i, 'N%d' % i, 'N%d' % (i + 1)) for i in range(4)]
    h += [sup('N0', '111100'), sup('N4', '001000'), ['sspring', 'N1', 'DY', 30., case[1]], ['sspring', 'N2', 'DY', 45., case[2]], ['sspring', 'N3', 'DZ', 20., case[2]],
          ['sspring', 'N4', 'DY', 60., None], ['sspring', 'N2', 'RZ', 500., None], ['sspring', 'N3', 'RY', 300., case[1]], ['sspring', 'N3', 'DX', 7., None]]
    h += [['nload', 'N1', 'FY', -4., 'K0'], ['nload', 'N3', 'FY', 5., 'K1'], ['nload', 'N3', 'FZ', 5., 'K2'], ['nload', 'N2', 'MY', 8., 'K0'], ['dload', 'M2', 'FY', -.4, .2, None, None, 'K2']]
    f = [(1, 0, 0), (-1, .3, 0), (0, 1, -1), (.5, -1, 2)]
    for order in itertools.permutations(range(4)):
        if case[1] is None and case[2] is None and order != (0, 1, 2, 3):
            continue
        m = ops.build(h + [['combo', 'c%d' % i, {'K%d' % k: v for k, v in enumerate(f[i])}] for i in order])
        try:
            ops.apply_real(m, ['analyze', {}])
        except Exception:
            continue
        rec.step()
        for k, c in enumerate(m.load_combos):
            look(rec, '%s:%s:%s' % (key, order, c), m, c, last=k == 3, order=k)


def c_member(rec, key, case):
    """every release pattern of a single member"""
    o, r0 = case[1:]
    step = 1 if r0 % 128 == 0 and r0 % 37 else 37
    th = r0 % 37 != 0
    pats = range(r0, min(r0 + (128 if th else 37*8), 4096), 1 if th else 37) if o in ('+X', 'XYZ') else (0, 0b000011000011, 0b000010000000, 0b100000000001)
    for r in pats:
        pat = format(r, '012b')
        u = ORIENT[o]
        h = frames.single(u) + [sup('I', '111111'), sup('J', '111111'), rel('M', pat)]
        lo = [['dload', 'M', 'Fy', -.3, -.1, 1., 8., 'K0'], ['dload', 'M', 'FZ', .7, -.4, None, None, 'K0'], ['ptload', 'M', 'Mz', 5., 7., 'K1'],
              ['ptload', 'M', 'FX', 2., 4., 'K1'], ['ptload', 'M', 'Mx', 3., 6., 'K2'], ['dload', 'M', 'Fx', .5, .2, None, None, 'K2'], ['disp', 'J', 'DX', .01], ['disp', 'J', 'RY', .002]]
        m = ops.build(h + lo + [['combo', 'all', {'K0': 1., 'K1': -1.4, 'K2': .7}]])
        try:
            ops.apply_real(m, ['analyze', {}])
        except Exception:
            continue          # the releases make a mechanism of the member
        rec.step()
        c = 'all'
        tag = '%s:%s' % (key, pat)
        look(rec, tag, m, c)
        element_laws(rec, tag, m, c)
        mem = list(m.members['M'].sub_members.values())[0]
        K = dense(mem.K())
        T = rigid(m)
        rec.close(tag + ':rotation', (K @ T)/np.abs(T).max(0), 0*T, 1e-8, stiff(mem), 'forces of a rigid motion')
        rd = [k for k in range(12) if pat[k] == '1']
        k = dense(mem.k())
        rec.close(tag + ':released', k[rd], 0*k[rd], 1e-9, np.abs(k).max(), 'stiffness at released ends')
        rec.close(tag + ':released-f', np.array(mem.f(c)).ravel()[rd], np.zeros(len(rd)), 1e-7, max(np.abs(mem.f(c)).max(), 1.), 'force at released ends')
        # fixed end reactions balance the load on the member
        F = np.array(mem.FER(c), float).ravel()
        res = T.T @ F
        w = np.zeros(6)
        R = dense(mem.T())[:3, :3]
        a = np.array([mem.i_node.X, mem.i_node.Y, mem.i_node.Z], float)
        fac = m.load_combos[c].factors
        def add(d, v, x, mom=False):
            k = 'xyz'.index(d[1].lower())
            vec = v*(np.eye(3)[k] if d[1].isupper() else R[k])
            if d[0] == 'M':
                w[3:] += vec
            else:
                w[:3] += vec
                w[3:] += np.cross(a + x*R[0], vec)
        for d, v, x, q in mem.PtLoads:
            add(d, v*fac[q], x)
        for d, w1, w2, x1, x2, q in mem.DistLoads:
            for g, wt in ((.5 - .5/3**.5, .5), (.5 + .5/3**.5, .5)):
                add(d, (w1 + (w2 - w1)*g)*fac[q]*wt*(x2 - x1), x1 + g*(x2 - x1))
        rec.close(tag + ':fer', res, -w, 1e-8, max(np.abs(w).max(), 1.), 'resultant of the fixed end reactions')
        # geometric stiffness
        G = dense(mem.Kg(1.))
        rec.close(tag + ':kg-sym', G, G.T, 1e-9, 1., 'geometric stiffness is symmetric')
        rec.close(tag + ':kg-lin', dense(mem.Kg(-2.5)), -2.5*G, 1e-9, 1., 'geometric stiffness is proportional to the axial force')
        rec.close(tag + ':kg-rigid', G @ T[:, :3], 0*T[:, :3], 1e-9, 1., 'geometric stiffness against a rigid translation')
        rec.close(tag + ':kg0', dense(mem.Kg(0.)), 0*G, 1e-12, 1., 'geometric stiffness without axial force')
        if not any(k in rd for k in (0, 1, 2, 6, 7, 8)):
            # turning a member across its axial force P by a small angle t takes the end couple P L t
            L = 10.
            for k in range(3):
                t = np.cross(np.eye(3)[k], u)
                want = np.zeros(6)
                Fv = G @ T[:, 3 + k]
                sh = Fv[6:9]
                rec.close(tag + ':kg-turn%d' % k, sh, t, 1e-8, 1., 'transverse force of a turned member under unit axial force')
        rec.state(tag)
