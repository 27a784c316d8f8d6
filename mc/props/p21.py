"""P-Delta analysis returns the second-order solution, in displacements, reactions and along the members."""
import itertools
import math

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, ORIENT, cmp_disp, lockstep, member, rel, sup
from .p06 import results

ID = 'P21'
TITLE = 'P-Delta analysis gives the second-order solution'
RULE = ('columns: every end condition x orientation x number of nodes along the member x axial force level from strong tension to .8 of '
        'buckling x way the axial force is applied x every lateral load in its own combination, compared with an independent two-step '
        'geometric stiffness solution and with closed-form beam-column theory; the member diagrams of every run are compared with '
        'equilibrium on the deflected shape; frames and every deviation of them with gravity and lateral loads in every order of '
        'combinations; every structure under vanishing loads; one-way members that stay active and guyed masts with slack guys versus models without them')
ASSUMPTIONS = ['the geometric stiffness is that of the axial forces of the first-order solution',
               'closed-form theory holds within the discretization error of the number of nodes used',
               'geometric stiffness of members with rotational end releases is approximate']
DD = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
L = 20.0
O = (1, 2, 3)
#       K factor, end supports in local freedoms (x y z rx ry rz): I, J
ENDS = {'cant': (2.0, '111111', '000000'), 'pin': (1.0, '111100', '011000'), 'prop': (.699, '111111', '011000'),
        'fix': (.5, '111111', '011111'), 'sway': (1.0, '111111', '000111')}
LEVELS = (-.6, .2, .5, .8)
E_, IY, IZ = MAT[2], 60.0, 150.0


def cases(tier):
    th = tier != 'quick'
    out = []
    axis = ['+X', '-Y', '+Y', '+Z', '-X', '-Z']
    for e in ENDS:
        ors = axis + (['XY', 'XYZ', '-Y-XZ', 'YZ', 'X-Z', '-X-YZ'] if e == 'cant' else [])
        for o, k in itertools.product(ors, (1, 2, 4)):
            for lv in LEVELS if (th or o in ('+X', '+Y', 'XYZ')) else (.5,):
                if lv > .5 and k == 1 and e in ('pin', 'prop', 'fix'):
                    continue          # one cubic element cannot represent these buckled shapes
                for ax in ('end', 'dist', 'pt') if (th or o in ('+Y', 'XYZ')) else ('end',):
                    out.append(['col', e, o, k, lv, ax])
    for e in ('cant', 'pin', 'sway', 'fix'):
        for o in axis if th else axis[:3]:
            for lv in LEVELS + ((.9, -2., .05) if th else ()):
                out.append(['theory', e, o, lv])
    for s in frames.ALL:
        for v in frames.variants(s, 1 if (th and not frames.deviations.__doc__ is None) else 0):
            out.append(['small', s, v])
    for s in ('portal', 'braced', 'space', 'cont', 'settle', 'springs'):
        for v in frames.variants(s, 1 if (th or s in ('portal', 'cont')) else 0, skip=() if th else ('sup', 'aux', 'xspring', 'disp')):
            out.append(['frame', s, v])
    for e in ENDS:
        for o in axis if th else ('+Y', '-X'):
            for k in (1, 2):
                for lv in (-.6, .5):
                    out.append(['flag', e, o, k, lv])
    for k in range(1, 4):
        for lv in (.2, .5, .7):
            for sp in (True, False):
                out.append(['guy', k, lv, sp])
    for end in ('i', 'j', 'both'):
        for axis_ in 'yz':
            for o in ('+Y', '+X', '-Z'):
                for lv in (-.5, .3, .6):
                    out.append(['rel', end, axis_, o, lv])
    return out


def local_pat(R, pat):
    """support flags given in local freedoms of an axis-aligned member, in global freedoms"""
    g = ['0']*6
    for k in range(3):
        d = int(np.argmax(np.abs(R[k])))
        g[d] = pat[k] if pat[k] == '1' else g[d]
        g[3 + d] = pat[3 + k] if pat[3 + k] == '1' else g[3 + d]
    return ''.join(g)


def column(e, o, nseg):
    u = ORIENT[o]
    h = frames.single(u, L)
    R = ref.local_axes(O, tuple(O[c] + L*u[c] for c in range(3)))
    _, si, sj = ENDS[e]
    if sum(abs(c) > 1e-9 for c in u) == 1:
        h += [sup('I', local_pat(R, si))]
        if '1' in sj:
            h += [sup('J', local_pat(R, sj))]
    else:
        h += [sup('I', '111111')]
    for k in range(1, nseg):
        h.append(['node', 'V%d' % k] + [O[c] + L*k/nseg*u[c] for c in range(3)])
    return h, R


def pcr(e, weak=True):
    return math.pi**2*E_*(IY if weak else IZ)/(ENDS[e][0]*L)**2


def axial_ops(R, P, how):
    """compression P in case X"""
    if how == 'end':
        return [['nload', 'J', 'F' + 'XYZ'[d], -P*R[0][d], 'X'] for d in range(3) if abs(R[0][d]) > 1e-12]
    if how == 'dist':
        return [['dload', 'M', 'Fx', -2*P/L, 0.0, 0.0, L, 'X']]
    return [['ptload', 'M', 'Fx', -P, .6*L, 'X']]


LATERAL = [['dload', 'M', 'Fy', -.03, -.03, None, None], ['dload', 'M', 'Fz', .01, .03, .2*L, .9*L], ['ptload', 'M', 'Fy', .3, .37*L],
           ['ptload', 'M', 'Fz', -.2, .5*L], ['ptload', 'M', 'Mz', 2.0, .62*L], ['ptload', 'M', 'My', 1.5, .25*L],
           ['ptload', 'M', 'Mx', 2.5, .55*L]]


def col(case, rec):
    _, e, o, nseg, lv, ax = case
    h, R = column(e, o, nseg)
    lat = LATERAL + ([['nload', 'J', 'F' + 'XYZ'[d], .25*R[k][d]] for k in (1, 2) for d in range(3) if abs(R[k][d]) > .5]
                     if e in ('cant', 'sway') else [])
    h += axial_ops(R, lv*pcr(e), ax)
    for i, l in enumerate(lat):
        h.append(list(l) + ['L%d' % i])
    order = list(range(len(lat)))
    if nseg == 2:
        order.reverse()
    for i in order:
        h.append(['combo', 'C%d' % i, {'L%d' % i: 1.0, 'X': 1.0}])
    h.append(['combo', 'C_', {'L0': -.5, 'L1': 1.0, 'X': .7}])
    m, r = lockstep(rec, h)
    ops.apply_real(m, ['pdelta', {}])
    rec.step()
    key = ':'.join(map(str, case))
    for c in r.combos:
        sol, _ = r.solve_pdelta(c)
        cmp_disp(rec, key + ':' + c, m, sol, c)
        reactions(rec, key + ':' + c, m, sol, r, c, 1e-6)
        along(rec, key + ':' + c, m, r, sol, 'M', c, ax == 'end')
        rec.trace()
        rec.outcome((case, c))


def reactions(rec, key, m, sol, r, c, tol):
    """reactions are the end forces of the members at the supports, in the deflected position"""
    fs = max([np.abs(v[:3]).max() for v in sol.R.values()] + [sol.fs])
    ms = max([np.abs(v[3:]).max() for v in sol.R.values()] + [fs])
    got = ops.reac(m, c)
    for n, d in sol.R.items():
        for k in range(6):
            if r.nodes[n]['sup'][k]:
                rec.close('%s:reac:%s:%d' % (key, n, k), got[n][k], d[k], tol, fs if k < 3 else ms, 'P-Delta reaction %s %s' % (n, ops.RXN[k]))


def along(rec, key, m, r, sol, name, c, constant, tol=1e-6):
    """member results follow from its end forces, its loads and its deflected shape"""
    mem = m.members[name]
    els = sol.els[name]
    R = els[0].R
    Lm = els[-1].b
    # deflections at the ends of every segment are the displacements of the nodes there
    st = max(np.abs(d[:3]).max() for d in sol.D.values()) + 1e-9
    for el in els:
        for n, x in ((el.ni, el.a), (el.nj, el.b)):
            want = R @ sol.D[n][:3]
            for k, d in enumerate(('dx', 'dy', 'dz')):
                rec.close('%s:%s:end:%s:%s' % (key, name, n, d), mem.deflection(d, x, c), want[k], 1e-6, st,
                          'P-Delta %s of %s at node %s' % (d, name, n))
    # moments: equilibrium of the part before the cut in its deflected position
    scale = {}
    xs = sorted({el.a + t*(el.b - el.a) for el in els for t in (0, .13, .31, .5, .77, 1)})
    vals = {}
    for ax, mq, dq, s in (('z', 'Mz', 'dy', 1.0), ('y', 'My', 'dz', 1.0)):
        ms = max([abs(f) for el in els for f in el.f[[4, 5, 10, 11]]] + [1e-3, 1e-4*max(abs(el.f[0]) for el in els)*Lm])
        ms = max([ms] + [abs(mem.moment(mq, x, c)) for x in xs])
        scale[mq] = ms
        for el in els:
            last = el is els[-1]
            d0 = mem.deflection(dq, el.a, c)
            for t in (0, .13, .31, .5, .77, 1):
                x = el.a + t*(el.b - el.a)
                got = mem.moment(mq, x, c)
                cands = []
                for side in (1, -1):
                    cut = sol.cut_in2(el, x, side)
                    cands.append(cut[mq] + s*cut['PD']*(mem.deflection(dq, x, c) - d0))
                vals[(mq, x)] = got
                rec.ev()
                tl = tol if constant else 1e-5
                if t == 1 and not last or t == 0 and el is not els[0]:
                    tl = max(tl, tol)
                    # joint between two segments: a moment load there may be read on either side
                    nb = els[els.index(el) + (1 if t == 1 else -1)]
                    d1 = mem.deflection(dq, nb.a, c)
                    for side in (1, -1):
                        cut = sol.cut_in2(nb, x, side)
                        cands.append(cut[mq] + s*cut['PD']*(mem.deflection(dq, x, c) - d1))
                if not any(abs(got - w) <= tl*ms for w in cands):
                    rec.fail('%s:%s:%s:x=%.6g' % (key, name, mq, x), 'combo %s member %s P-Delta %s(%.6g) got %r, equilibrium on the '
                             'deflected member gives %s' % (c, name, mq, x, got, cands))
        hi, lo = mem.max_moment(mq, c), mem.min_moment(mq, c)
        top = max(v for (q, x), v in vals.items() if q == mq)
        bot = min(v for (q, x), v in vals.items() if q == mq)
        rec.true('%s:%s:max_%s' % (key, name, mq), hi >= top - 1e-6*ms and lo <= bot + 1e-6*ms,
                 'combo %s P-Delta extremes of %s (%g, %g) miss sampled values (%g, %g)' % (c, mq, hi, lo, top, bot))
    # deflected shape has no kinks or jumps between the segments
    for dq in ('dy', 'dz'):
        xx = np.linspace(0, Lm, 161)
        v = np.array([mem.deflection(dq, x, c) for x in xx])
        rec.true('%s:%s:smooth:%s' % (key, name, dq), np.isfinite(v).all() and
                 np.abs(np.diff(v, 2)).max() <= 2*curv(els, c, mem, dq, xx) + 1e-6*st,
                 'combo %s P-Delta deflection %s of %s is not smooth' % (c, dq, name))


def curv(els, c, mem, dq, xx):
    """largest second difference the moments allow"""
    mq, I = ('Mz', els[0].Iz) if dq == 'dy' else ('My', els[0].Iy)
    big = max(abs(mem.moment(mq, x, c)) for x in xx[::4])
    ends = max([abs(f) for el in els for f in el.f[[4, 5, 10, 11]]])
    return max(big, ends)/(els[0].E*I)*(xx[1] - xx[0])**2


def theory(case, rec):
    """closed-form beam-columns, several nodes along the member"""
    _, e, o, lv = case
    key = ':'.join(map(str, case))
    for weak in (True, False):
        h, R = column(e, o, 8 if e == 'fix' else 4)
        P = lv*pcr(e, weak)
        EI = E_*(IY if weak else IZ)
        h += axial_ops(R, P, 'end')
        row = R[2] if weak else R[1]
        w, H = .02, .3
        if e in ('cant', 'sway'):
            h += [['nload', 'J', 'F' + 'XYZ'[d], H*row[d], 'Q'] for d in range(3) if abs(row[d]) > .5]
        else:
            h += [['dload', 'M', 'Fz' if weak else 'Fy', w, w, None, None, 'Q']]
        h.append(['combo', 'C', {'X': 1.0, 'Q': 1.0}])
        m, r = lockstep(rec, h)
        ops.apply_real(m, ['pdelta', {}])
        rec.step()
        k = math.sqrt(abs(P)/EI)
        u = k*L
        c = P > 0
        tn = math.tan if c else math.tanh
        s = 1.0 if c else -1.0
        mem = m.members['M']
        dq, mq = ('dz', 'My') if weak else ('dy', 'Mz')
        D = [mem.deflection(dq, x, 'C') for x in (.5*L, L)]
        M = [abs(mem.moment(mq, x, 'C')) for x in (0, .5*L, L)]
        ext = max(abs(mem.max_moment(mq, 'C')), abs(mem.min_moment(mq, 'C')))
        if e == 'cant':
            want = [('tip', D[1], s*H/P*s*(tn(u)/k - L) if not c else H/P*(math.tan(u)/k - L)), ('base', M[0], H*tn(u)/k), ('ext', ext, H*tn(u)/k)]
            if not c:
                want[0] = ('tip', D[1], H/abs(P)*(L - math.tanh(u)/k))
        elif e == 'sway':
            v = u/2
            tip = H/abs(P)*s*(2*tn(v)/k - L)
            want = [('tip', D[1], tip), ('base', M[0], H*tn(v)/k), ('top', M[2], H*tn(v)/k)]
        elif e == 'pin':
            v = u/2
            sec = 1/math.cos(v) if c else 1/math.cosh(v)
            Mm = w/k**2*s*(sec - 1)
            want = [('mid', M[1], Mm), ('ext', ext, Mm), ('dmid', D[0], s*(Mm/abs(P) - w*L**2/(8*abs(P))))]
        else:
            v = u/2
            # fixed ends: M_end = w/k^2 (1 - v/tan v), mid = w/k^2 (v/sin v - 1)
            me = w/k**2*s*(1 - v/tn(v))
            mm = w/k**2*s*(v/(math.sin(v) if c else math.sinh(v)) - 1)
            want = [('end', M[0], me), ('end2', M[2], me), ('mid', M[1], mm), ('ext', ext, me)]
        tol = .01 if abs(lv) <= .8 else .03
        for lab, got, wv in want:
            rec.close('%s:%s:%s' % (key, weak, lab), got, wv, tol, 0, 'beam-column theory %s (P/Pcr=%g)' % (lab, lv))
        rec.trace()
        rec.outcome((case, weak))


def small(case, rec):
    """second-order effects vanish with the loads"""
    _, s, v = case
    h, loads = frames.history(s, v)
    f = 1e-6
    h = [op[:3] + [op[3]*f] if op[0] == 'disp' else op for op in h]
    full = h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)] + [
        ['combo', 'A', {'K0': f, 'K1': .5*f}], ['combo', 'B', {'K1': -f}], ['combo', 'Z', {}]]
    m, r = lockstep(rec, full)
    try:
        r.solve('A')
    except ref.Unstable:
        return
    ops.apply_real(m, ['pdelta', {}])
    rec.step()
    m2 = ops.build(full)
    ops.apply_real(m2, ['analyze', {}])
    key = '%s:%s' % (s, '+'.join(v))
    for c in 'ABZ':
        base = dict(results(m2, c))
        sc = {}
        for lab, x in base.items():
            g = lab.split(':')[0]
            sc[g] = max(sc.get(g, f*1e-6), np.abs(x).max())
        for lab, got in results(m, c):
            rec.close('small:%s:%s:%s' % (key, c, lab), got, base[lab], 3e-5, sc[lab.split(':')[0]], 'P-Delta under tiny loads, %s %s' % (c, lab))
        rec.trace()
        rec.outcome((case, c))


def frame(case, rec):
    """frames under gravity and lateral loads, combinations in every order, analysed once and again"""
    _, s, v = case
    h, loads = frames.history(s, v)
    full = h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)]
    r = ref.Ref()
    for op in full:
        r.apply(op)
    top = max(r.nodes, key=lambda n: (r.nodes[n]['p'][1], r.nodes[n]['p'][0]))
    full.append(['nload', top, 'FY', -60.0, 'G'])
    combos = [['combo', 'A', {'K0': 1.0, 'G': 1.0}], ['combo', 'B', {'K0': -.5, 'K1': 1.0, 'G': -.8}], ['combo', 'Z', {}], ['combo', 'G', {'G': 1.3, 'K1': .2}]]
    key = '%s:%s' % (s, '+'.join(v))
    for op in full[-1:] + combos:
        r.apply(op)
    try:
        want = {c[1]: (r.solve(c[1]),) + r.solve_pdelta(c[1]) for c in combos}
    except ref.Unstable:
        return
    rot = any(l.startswith('rel') and any(l.split(':')[2][k] == '1' for k in (3, 4, 5, 9, 10, 11)) for l in v) or s == 'braced'
    bad = any(l.startswith('rel') and any(l.split(':')[2][k] == '1' for k in (1, 2, 7, 8)) for l in v)
    first = None
    for n, perm in enumerate(itertools.permutations(combos) if not v else (combos, combos[::-1])):
        if n % 5 and not v:
            continue
        m, _ = lockstep(rec, full + list(perm))
        for rep in range(2):
            ops.apply_real(m, ['pdelta', dict(sparse=(n + rep) % 2 == 0)])
            rec.step()
            for c, (lin, sol, ax) in want.items():
                got = ops.disp(m, c)
                eff = max(np.abs(sol.D[x][:3] - lin.D[x][:3]).max() for x in sol.D)
                effr = max(np.abs(sol.D[x][3:] - lin.D[x][3:]).max() for x in sol.D)
                st = max(np.abs(d[:3]).max() for d in sol.D.values()) + 1e-9
                sr = max(np.abs(d[3:]).max() for d in sol.D.values()) + st*.01
                loose = 1.0 if bad else .1 if rot else 0.0
                for x, d in sol.D.items():
                    rec.close('%s:%d:%s:%s:t' % (key, n, c, x), got[x][:3], d[:3], 1, 1e-6*st + loose*eff, 'P-Delta displacement of %s in %s' % (x, c))
                    rec.close('%s:%d:%s:%s:r' % (key, n, c, x), got[x][3:], d[3:], 1, 1e-6*sr + loose*effr, 'P-Delta rotation of %s in %s' % (x, c))
            full_now = {(c, lab): x for c in want for lab, x in results(m, c)}
            if first is None:
                first = full_now
            else:
                for kk, x in full_now.items():
                    g = kk[1].split(':')[0]
                    sc = max(np.abs(y).max() for k2, y in first.items() if k2[1].split(':')[0] == g)
                    rec.close('%s:%d:%d:%s' % (key, n, rep, kk), x, first[kk], 1e-6, sc, 'P-Delta result %s depends on combination order, solver or repetition' % (kk,))
            rec.trace()
            rec.outcome((case, n, rep))


def relcase(case, rec):
    """a member end released from its node behaves as a column with a hinged end"""
    _, end, axis, o, lv = case
    key = ':'.join(map(str, case))
    u = ORIENT[o]
    R = ref.local_axes(O, tuple(O[c] + L*u[c] for c in range(3)))
    d = 4 if axis == 'y' else 5
    pat = ['0']*12
    if end in ('i', 'both'):
        pat[d] = '1'
    if end in ('j', 'both'):
        pat[6 + d] = '1'
    base = [MAT] + [['node', 'N%d' % k] + [O[c] + L*k/4*u[c] for c in range(3)] for k in range(5)]
    P = lv*math.pi**2*E_*(IY if axis == 'y' else IZ)/(L*(1.0 if end == 'both' else .699))**2
    hinged = ['1']*6
    other = 'y' if axis == 'z' else 'z'
    loads = [['nload', 'N4', 'F' + 'XYZ'[q], -P*R[0][q], 'X'] for q in range(3) if abs(R[0][q]) > .5] + [
        ['nload', 'N2', 'F' + 'XYZ'[q], .5*R[1 if axis == 'z' else 2][q], 'Q'] for q in range(3) if abs(R[1 if axis == 'z' else 2][q]) > .5]

    def pats(rel_i, rel_j):
        a, b = list('111111'), list('011111')
        if rel_i:
            a[d] = '0'
        if rel_j:
            b[d] = '0'
        return local_pat(R, a), local_pat(R, b)
    ri, rj = end in ('i', 'both'), end in ('j', 'both')
    sols = []
    for mode in ('support', 'release'):
        h = list(base)
        for k in range(4):
            h.append(member('M%d' % k, 'N%d' % k, 'N%d' % (k + 1)))
        a, b = pats(ri, rj) if mode == 'support' else pats(False, False)
        h += [sup('N0', a), sup('N4', b)]
        if mode == 'release':
            pi, pj = ['0']*12, ['0']*12
            pi[d], pj[6 + d] = '1', '1'
            if ri:
                h.append(rel('M0', ''.join(pi)))
            if rj:
                h.append(rel('M3', ''.join(pj)))
        h += loads + [['combo', 'C', {'X': 1.0, 'Q': 1.0}]]
        m, r = lockstep(rec, h)
        ops.apply_real(m, ['pdelta', {}])
        rec.step()
        sols.append((ops.disp(m, 'C'), {k: m.members['M%d' % k].moment('My' if axis == 'y' else 'Mz', L/8, 'C') for k in range(4)}))
    st = max(np.abs(x[:3] - 0*x[:3]).max() for n, x in sols[0][0].items())
    for n in ('N1', 'N2', 'N3'):
        row = R[1 if axis == 'z' else 2]
        rec.close(key + ':' + n, sols[1][0][n][:3] @ row, sols[0][0][n][:3] @ row, .01, abs(sols[0][0]['N2'][:3] @ row), 'released end versus hinged support, %s' % n)
    ms = max(abs(x) for x in sols[0][1].values())
    for k in range(4):
        rec.close(key + ':M%d' % k, sols[1][1][k], sols[0][1][k], .02, ms, 'released end versus hinged support, moment in M%d' % k)
    rec.trace()
    rec.outcome(case)


def same(rec, key, m, m2, c, names=None, tol=1e-7):
    from .p29 import reported
    want = dict(reported(m2, c))
    sc = {}
    for lab, x in want.items():
        g = lab.split(':')[0]
        sc[g] = max(sc.get(g, 1e-6), np.abs(x).max())
    for lab, x in reported(m, c):
        if lab in want:
            rec.close('%s:%s:%s' % (key, c, lab), x, want[lab], tol, sc[lab.split(':')[0]], 'P-Delta %s %s of a model with one-way members versus one without' % (c, lab))
    rec.trace()


def flag(case, rec):
    """a one-way member that stays active behaves like an ordinary one"""
    _, e, o, nseg, lv = case
    h, R = column(e, o, nseg)
    h += axial_ops(R, lv*pcr(e), 'end')
    for i, l in enumerate(LATERAL):
        h += [list(l) + ['L%d' % i], ['combo', 'C%d' % i, {'L%d' % i: 1.0, 'X': 1.0}]]
    f = dict(comp_only=True) if lv > 0 else dict(tension_only=True)
    ms = []
    for g in (h, [op[:-1] + [dict(op[-1], **f)] if op[0] == 'member' and isinstance(op[-1], dict) else op + [f] if op[0] == 'member' else op for op in h]):
        m, r = lockstep(rec, g)
        ops.apply_real(m, ['pdelta', {}])
        rec.step()
        ms.append(m)
    rec.true(':'.join(map(str, case)) + ':flags', [x.comp_only or x.tension_only for x in ms[1].members.values()] == [True], 'flags not set')
    # the combination analysed last is the one whose results are asked for first
    for i in reversed(range(len(LATERAL))):
        same(rec, ':'.join(map(str, case)), ms[1], ms[0], 'C%d' % i)
        rec.outcome((case, i))


def guy(case, rec):
    """a mast with tension-only guys: the slack ones do not matter, the tight ones act like ordinary members"""
    _, k, lv, sp = case
    def build(flags, drop=()):
        h = [MAT] + [['node', 'N%d' % i, 0, 10*i, 0] for i in range(k + 1)] + [['node', 'G0', 12, 0, 0], ['node', 'G1', -9, 0, 0], ['node', 'G2', 0, 0, 14], ['node', 'G3', 2, 0, -11]]
        h += [member('K%d' % i, 'N%d' % i, 'N%d' % (i + 1), **(dict(comp_only=True) if flags else {})) for i in range(k)]
        h += [sup('N0', '111111')] + [sup('G%d' % i, '111111') for i in range(4)]
        for i in range(4):
            if i not in drop:
                h += [member('B%d' % i, 'G%d' % i, 'N%d' % (k if i < 3 else 1), ['S', 3., 5., 2., .3], **(dict(tension_only=True) if flags else {})), rel('B%d' % i, '000011000011')]
        P = lv*pcr('cant')*4/k**2
        h += [['nload', 'N%d' % k, 'FY', -P, 'X'], ['dload', 'K0', 'FX', .2, .1, None, None, 'L0'], ['nload', 'N%d' % k, 'FX', 9.0, 'L1'], ['nload', 'N1', 'FZ', -7.0, 'L2']]
        h += [['combo', 'c%d%d%d' % v, {'X': 1.0, 'L0': v[0], 'L1': v[1], 'L2': v[2]}] for v in itertools.product((0, 1, -1), repeat=3)]
        return h
    key = ':'.join(map(str, case))
    m, r = lockstep(rec, build(True))
    ops.apply_real(m, ['pdelta', dict(sparse=sp)])
    rec.step()
    base = {}
    for c in reversed(list(r.combos)):
        drop = frozenset(i for i in range(4) if not m.members['B%d' % i].active[c])
        if not all(m.members['K%d' % i].active[c] for i in range(k)):
            rec.fail(key + ':mast', 'the compressed mast was taken out of %s' % c)
            continue
        if drop not in base:
            base[drop], _ = lockstep(rec, build(False, drop))
            ops.apply_real(base[drop], ['pdelta', {}])
            rec.step()
        same(rec, key, m, base[drop], c, tol=1e-6)
        rec.outcome((case, c, drop))


def run(case, rec):
    {'col': col, 'theory': theory, 'small': small, 'frame': frame, 'rel': relcase, 'flag': flag, 'guy': guy}[case[0]](case, rec)
