"""A physical member gives the same answers however many nodes lie on it."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import ORIENT, member, sup, rel, each_in_own_combo, lockstep, cmp_diagrams, cmp_defl, cmp_disp, cmp_reac

ID = 'P05'
TITLE = 'Member results do not depend on how many nodes lie along the member'
RULE = ('every subset of five interior node positions, and nodes close together or to the end, x creation order (before/after the member, ascending/descending) x '
        'orientation x end releases x decoy nodes off the axis, all loads alone and together, compared with the reference '
        'solution of the same member WITHOUT any interior node')
ASSUMPTIONS = ['decoy nodes are at least 0.1% of the length away from the axis or beyond the ends']
POS = (.1, .25, .37, .5, .8, .2523, .502, .995)
RELS = ('0'*12, '000011000011', '000001000000', '000100000000')


def cases(tier):
    th = tier != 'quick'
    out = []
    subsets = [s for k in range(6) for s in itertools.combinations(range(5), k)]
    for o in (ORIENT if th else ('+X', '-Y', 'XYZ')):
        for i, s in enumerate(subsets):
            for order in (range(4) if th else (i % 4,)):
                for r in (range(4) if th else ((i + len(s)) % 4,)):
                    out.append([o, list(s), order, r])
    # nodes close to each other and to the end
    for o in (ORIENT if th else ('+X', 'XYZ')):
        for s in ([1, 5], [1, 3, 5, 6], [0, 5, 1, 6, 3, 7]):
            out += [[o, s, order, len(s) % 4] for order in range(4)]
    for o in (ORIENT if th else ('+X', '-X-YZ')):
        for nmany in ((9, 24, 27, 40, 70) if th else (12, 27, 41) if o == '+X' else (27,)):
            out.append([o, nmany, 0, 0])
    return out


def run(case, rec):
    o, s, order, r = case
    L = 10.0
    u = np.array(ORIENT[o])
    v = np.cross(u, (0.3, -.5, .7))
    v /= np.linalg.norm(v)
    P0 = np.array((1, 2, 3.))
    ts = [POS[k] for k in s] if isinstance(s, list) else [(k + 1)/(s + 1.) for k in range(s)]
    if order & 1:
        ts = ts[::-1]
    inner = [['node', 'V%d' % k] + list(P0 + L*t*u) for k, t in enumerate(ts)]
    decoy = [['node', 'Q%d' % k] + list(p) for k, p in enumerate((
        P0 + L*.5*u + .1*v, P0 + L*1.2*u, P0 - L*.3*u, P0 + L*.37*u - .2*v, P0 + L*.98*u + .15*v,
        P0 + L*.9*u + .02*v, P0 + L*.3*u - .01*v))]
    dsup = [sup('Q%d' % k, '111111') for k in range(7)]
    loads = []
    for k, d in enumerate(('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')):
        loads.append(['ptload', 'M', d, 2.0 + k % 3, (0, 2.5, 3.1, 5.0, 8.0, 9.0)[k % 6]])
    for k, d in enumerate(('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ')):
        loads.append(['dload', 'M', d] + [[1, 1, None, None], [0, 2, 2.5, 8.0], [1, -2, 1.3, 9.1]][k % 3])
        loads.append(['dload', 'M', d] + [[.4, 1, 0.4, .9], [-1, .5, 3.7, 5.0], [1, 0, 4.9, 10.]][(k + 1) % 3])
    lo, names = each_in_own_combo(loads, 1.0)
    lo.append(['combo', 'ALL', {'L%d' % i: (1.0, -1.4, .7)[i % 3] for i in range(len(loads))}])
    names.append('ALL')
    base = frames.single(tuple(u), L)
    nodes = [x for x in base if x[0] != 'member']
    mem = [x for x in base if x[0] == 'member']
    tail = [sup('I', '111111'), sup('J', '111111'), rel('M', RELS[r])] + lo
    plain = nodes + mem + tail
    full = nodes + (inner + decoy + mem if order & 2 else mem + decoy + inner) + dsup + tail
    key = '%s:%s:%d:%d' % (o, s if isinstance(s, int) else ','.join(map(str, s)), order, r)
    m, rf = lockstep(rec, full)
    p = ref.Ref()
    for op in plain:
        p.apply(op)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    rec.true(key + ':parts', len(m.members['M'].sub_members) == len(ts) + 1,
             '%d interior nodes give %d parts' % (len(ts), len(m.members['M'].sub_members)))
    for c in names:
        sol = p.solve(c)
        cmp_disp(rec, key, m, sol, c)
        cmp_reac(rec, key, m, sol, p, c)
        cmp_diagrams(rec, key, m, sol, 'M', c)
        if c == 'ALL' or len(s if isinstance(s, list) else 'xxx') < 3:
            cmp_defl(rec, key, m, sol, 'M', c)
        # interior node displacements are the member's deflections there
        R = ref.local_axes(tuple(P0), tuple(P0 + L*u))
        dn = ops.disp(m, c)
        for k, t in enumerate(ts[:6]):
            rec.close('%s:node%d:%s' % (key, k, c), R @ dn['V%d' % k][:3], sol.defl('M', L*t), 1e-6,
                      max(np.abs(sol.defl('M', L*t)).max(), 1e-6), 'displacement of the node at %g L in %s' % (t, c))
        rec.trace()
        rec.outcome((key, c))
