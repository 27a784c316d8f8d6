"""Superposition: every load combination is the factored sum of its load cases, independently of the other combinations."""
import itertools

import numpy as np

from .. import frames, ops
from ..common import lockstep

ID = 'P06'
TITLE = 'Load combinations superpose and do not influence one another'
RULE = ('every structure x every factor vector over {0 (absent), 1, -1.5, 0.4} for three load cases, all in one model; every '
        'non-empty subset and order of four combinations defined in a model; results are nodal displacements, reactions, '
        'member section forces and shell forces')
ASSUMPTIONS = ['linear structures without one-way elements']


def cases(tier):
    out = []
    th = tier != 'quick'
    for s in frames.ALL:
        out.append(['vec', s, []])
        if th:
            for v in frames.variants(s, 1)[1:]:
                out.append(['vec', s, v])
    for s in ('portal', 'cont', 'springs', 'settle', 'mixed') if not th else tuple(frames.ALL):
        names = ('A', 'B', 'C', 'D')
        for k in range(1, 5):
            for p in itertools.permutations(names, k):
                if not th and k == 3 and p[0] > p[1]:
                    continue
                out.append(['order', s, list(p)])
    return out


FV = (None, 1.0, -1.5, .4)


def results(m, c):
    """flat vector of everything reported for a combination, with labels"""
    out = []
    for n, v in ops.disp(m, c).items():
        out.append(('disp:' + n, v*1e3))
    for n, v in ops.reac(m, c).items():
        out.append(('reac:' + n, v))
    for n, mem in m.members.items():
        L = mem.L()
        q = []
        for x in (0, .31*L, .68*L, L):
            q += [mem.shear('Fy', x, c), mem.shear('Fz', x, c), mem.moment('My', x, c), mem.moment('Mz', x, c),
                  mem.torque(x, c), mem.axial(x, c)]
        out.append(('cut:' + n, np.array(q, float)))
        out.append(('defl:' + n, np.array([mem.deflection(d, t*L, c) for d in ('dx', 'dy', 'dz') for t in (.2, .5, .9)], float)*1e3))
    for n, s in m.springs.items():
        out.append(('spring:' + n, np.array([s.axial(c)], float)))
    for n, q in m.quads.items():
        out.append(('quad:' + n, np.concatenate([np.ravel(f(r, s, True, c)) for r, s in ((0, 0), (.6, -.3)) for f in (q.moment, q.shear, q.membrane)])))
    for n, q in m.plates.items():
        w, h = q.width(), q.height()
        out.append(('plate:' + n, np.concatenate([np.ravel(f(w*a, h*b, True, c)) for a, b in ((.5, .5), (.2, .8)) for f in (q.moment, q.shear, q.membrane)])))
    return out


def run(case, rec):
    kind, s = case[0], case[1]
    h, loads = frames.history(s, case[2] if kind == 'vec' else [])
    key = ':'.join(str(x) if not isinstance(x, list) else '+'.join(x) for x in case)
    # three cases, loads distributed round robin, the first load also repeated in another case
    lops = [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)] + [list(loads[0]) + ['K1'], list(loads[-1]) + ['K0']]
    if kind == 'vec':
        combos = []
        for v in itertools.product(FV, repeat=3):
            f = {'K%d' % i: x for i, x in enumerate(v) if x is not None}
            combos.append(('c' + ''.join('-' if x is None else str(FV.index(x)) for x in v), f, v))
        full = h + lops + [['combo', n, dict(f, unused=3.0)] for n, f, _ in combos]
        from .. import ref
        r = ref.Ref()
        for op in full:
            r.apply(op)
        try:
            r.solve(combos[0][0])
        except ref.Unstable:
            return
        m, r = lockstep(rec, full)
        ops.apply_real(m, ['analyze', {}])
        rec.step()
        res = {n: results(m, n) for n, _, _ in combos}
        zero = dict(res['c---'])
        unit = [dict(res['c1--']), dict(res['c-1-']), dict(res['c--1'])]
        scale = {}
        for lab in zero:
            g = lab.split(':')[0]
            scale[g] = max([scale.get(g, 1e-9)] + [np.abs(u[lab]).max() for u in unit])
        for n, f, v in combos:
            for lab, got in res[n]:
                want = zero[lab] + sum(x*(u[lab] - zero[lab]) for x, u in zip(v, unit) if x is not None)
                rec.close('%s:%s:%s' % (key, n, lab), got, want, 1e-6, scale[lab.split(':')[0]], 'combo %s (%s) %s' % (n, f, lab))
            rec.trace()
            rec.outcome((key, n))
    else:
        F = {'A': {'K0': 1.2}, 'B': {'K0': 1.0, 'K1': -1.0}, 'C': {'K2': 1.6, 'K1': .5}, 'D': {}}
        m, _ = lockstep(rec, h + lops + [['combo', n, F[n]] for n in case[2]])
        ops.apply_real(m, ['analyze', {}])
        rec.step()
        for n in case[2]:
            m2 = ops.build(h + lops + [['combo', n, F[n]]])
            ops.apply_real(m2, ['analyze', {}])
            rec.step()
            alone = dict(results(m2, n))
            for lab, got in results(m, n):
                rec.close('%s:%s:%s' % (key, n, lab), got, alone[lab], 1e-9, max(np.abs(alone[lab]).max(), 1e-3),
                          'combo %s %s, among %s' % (n, lab, case[2]))
            rec.trace()
            rec.outcome((key, n))
