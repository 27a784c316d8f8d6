"""Supports and enforced displacements are honoured exactly."""
import itertools
import math

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, cmp_disp, cmp_reac, each_in_own_combo, lockstep, member, rel, sup

ID = 'P23'
TITLE = 'Supports and enforced displacements are honoured exactly'
RULE = ('a joint of every kind (frame joint, interior node of a physical member, member end with hinges, spring joint, plate node, quad node) x '
        'all 64 support patterns x enforced displacements on every freedom, all freedoms and every pair; every history of three support, '
        'displacement and support spring redefinitions with an analysis after each; structures without any unknown freedom; settlements that are rigid motions')
ASSUMPTIONS = ['the force needed to enforce a displacement where there is no support is not reported as a reaction']
DD = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
VAL = (.13, -.21, .17, .003, -.002, .004)
JOINTS = {'space': 'T', 'cont': 'D', 'cont2': 'G', 'springs': 'B', 'quad-SK': 'P4', 'plate-XY': 'P4', 'plate-SK': 'P8', 'mixed': 'P5', 'portal': 'N4'}


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in JOINTS:
        for b in range(0, 64, 1):
            if th or not (s in ('quad-SK', 'plate-XY', 'plate-SK', 'mixed') and bin(b).count('1') in (2, 4)):
                out.append(['joint', s, b, th])
    for s in ('portal', 'springs') + (('quad-XY', 'space') if th else ()):
        for a in range(len(EDITS)):
            depth = 4 if th and s != 'quad-XY' else 3 if th or s == 'portal' else 2
            # the deepest trees are cut at their second edit, to stay well below the time limit of a case
            out += [['edit', s, a, depth, b] for b in range(len(EDITS))] if depth == 4 else [['edit', s, a, depth]]
    for s in frames.ALL:
        out.append(['known', s])
        if s not in ('springs', 'settle'):
            out.append(['rigid', s])
    return out


def joint_history(s):
    name = s.rstrip('2')
    h, loads = frames.history(name, [])
    if s == 'portal':
        h = h + [rel('M3', '000000000011')]
    return h, loads


def joint(case, rec):
    _, s, b, th = case
    n = JOINTS[s]
    h, loads = joint_history(s)
    pat = format(b, '06b')
    enf = [()] + [(k,) for k in range(6)] + [tuple(range(6)), (0, 1, 2), (3, 4, 5)]
    if th:
        enf += list(itertools.combinations(range(6), 2))
    else:
        enf = enf[b % 4::4] + [tuple(k for k in range(6) if pat[k] == '1')]
    for e in enf:
        hh = h + [sup(n, pat)] + [['disp', n, DD[k], VAL[k]] for k in e]
        hh += [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)]
        hh += [['nload', n, f, 1.0 + .3*k, 'K0'] for k, f in enumerate(('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'))]
        hh += [['combo', 'A', {'K0': 1.0, 'K1': .5}], ['combo', 'B', {'K0': -2.0}], ['combo', 'Z', {}]]
        key = '%s:%s:%s' % (s, pat, ''.join(map(str, e)))
        r = ref.Ref()
        for op in hh:
            r.apply(op)
        try:
            sols = {c: r.solve(c) for c in 'ABZ'}
        except ref.Unstable:
            continue
        m, _ = lockstep(rec, hh)
        for f, o in (('analyze', {}),) + ((('analyze_linear', dict(sparse=False)),) if b % 8 == 0 else ()) + (
                (('pdelta', {}),) if b % 8 == 4 else ()):
            ops.apply_real(m, [f, o])
            rec.step()
            for c, sol in sols.items():
                exact(rec, '%s:%s:%s' % (key, f, c), m, r, c)
                if f == 'pdelta':
                    if s in ('cont', 'cont2', 'springs', 'quad-SK', 'plate-XY', 'plate-SK', 'space'):
                        cmp_disp(rec, '%s:%s:%s' % (key, f, c), m, r.solve_pdelta(c)[0], c)
                else:
                    cmp_disp(rec, '%s:%s:%s' % (key, f, c), m, sol, c)
                    cmp_reac(rec, '%s:%s:%s' % (key, f, c), m, sol, r, c, fscale=floor(sol))
                rec.trace()
                rec.outcome((key, f, c))


def floor(sol):
    """forces are differences of stiffness times displacement: magnitude below which they are rounding"""
    return 1e-6*max([np.abs(e.kk).max()*np.abs(e.d).max() for l in sol.els.values() for e in l] + [1.0])


def exact(rec, key, m, r, c):
    """known displacements come back bit for bit; freedoms without supports or springs have no reaction"""
    D, R = ops.disp(m, c), ops.reac(m, c)
    for n, nd in r.nodes.items():
        for k in range(6):
            want = nd['enf'][k] if nd['enf'][k] is not None else (0.0 if nd['sup'][k] else None)
            if want is not None:
                rec.true('%s:%s:%s' % (key, n, DD[k]), D[n][k] == want, 'known displacement %s of %s is %r instead of %r in %s' % (DD[k], n, D[n][k], want, c))
            if not nd['sup'][k] and k not in nd['spr']:
                rec.true('%s:%s:R%s' % (key, n, DD[k]), R[n][k] == 0, 'reaction %r at the free freedom %s of %s in %s' % (R[n][k], DD[k], n, c))


EDITS = [('sup', '111111'), ('sup', '010000'), ('sup', '000000'), ('disp', 'DY', -.2), ('disp', 'DY', None), ('disp', 'RZ', .01), ('disp', 'RX', 0.0),
         ('disp', 'RZ', None), ('spr', 'DX', 15.0), ('spr', 'DX', 0.0), ('spr', 'RZ', 900.0), ('sup', '000110')]


def edit(case, rec):
    """every sequence of redefinitions at one node, an analysis after every one of them"""
    s, a, depth = case[1:4]
    n = {'portal': 'N3', 'springs': 'C', 'quad-XY': 'P5', 'space': 'E'}[s]
    h, loads = frames.history(s, [])
    h = h + [list(l) + ['K'] for l in loads] + [['combo', 'C', {'K': 1.0}], ['combo', 'Z', {}]]
    for rest in itertools.product(*([case[4:]] if case[4:] else []) + [range(len(EDITS))]*(depth - 1 - len(case[4:]))):
        m, r = ops.build(h), ref.Ref()
        for op in h:
            r.apply(op)
        hist = list(h)
        seq = (a,) + rest
        for i, k in enumerate(seq):
            e = EDITS[k]
            op = sup(n, e[1]) if e[0] == 'sup' else ['disp', n, e[1], e[2]] if e[0] == 'disp' else ['sspring', n, e[1], e[2]]
            hist = hist + [op]
            rec.history = hist
            ops.apply_real(m, op)
            r.apply(op)
            rec.state((s, seq[:i + 1]))
            rec.step()
            if i < depth - 1 and rest[i:] and any(rest[i:]):
                # the same prefix is compared in the sequence whose remaining edits are the first ones
                if i % 2 == 0:
                    ops.apply_real(m, ['analyze', {}])
                continue
            try:
                sols = {c: r.solve(c) for c in 'CZ'}
            except ref.Unstable:
                continue
            ops.apply_real(m, ['analyze', {}])
            key = 'edit:%s:%s' % (s, '-'.join(map(str, seq[:i + 1])))
            for c, sol in sols.items():
                exact(rec, key + ':' + c, m, r, c)
                cmp_disp(rec, key + ':' + c, m, sol, c)
                cmp_reac(rec, key + ':' + c, m, sol, r, c, fscale=floor(sol))
            rec.trace()
            rec.outcome((s, seq[:i + 1]))


def rigid(case, rec):
    """enforcing a rigid motion on all supports moves the structure without straining it"""
    _, s = case
    h, loads = frames.history(s, [])
    r = ref.Ref()
    for op in h:
        r.apply(op)
    supported = [n for n, nd in r.nodes.items() if any(nd['sup'])]
    for t, w in itertools.product([(0, 0, 0), (.3, -.2, .1), (0, .5, 0)], [(0, 0, 0), (.002, 0, 0), (0, .001, 0), (0, 0, -.003), (.001, -.002, .0015)]):
        hh = list(h)
        D = {n: np.concatenate([np.array(t) + np.cross(w, nd['p']), w]) for n, nd in r.nodes.items()}
        for n in supported:
            hh += [['disp', n, DD[k], float(D[n][k])] for k in range(6) if r.nodes[n]['sup'][k]]
        hh += [['combo', 'Z', {}]]
        if any(nd['spr'] for nd in r.nodes.values()) or any(w) and r.shells:
            continue          # shells have weak drilling springs to the ground
        m, rr = lockstep(rec, hh)
        ops.apply_real(m, ['analyze', {}])
        rec.step()
        got = ops.disp(m, 'Z')
        st = max(np.abs(d[:3]).max() for d in D.values()) + 1e-12
        sol = rr.solve('Z')
        key = 'rigid:%s:%s:%s' % (s, t, w)
        key = key.replace(' ', '')
        shells = bool(rr.shells)
        for n in got:
            rec.close(key + ':' + n, got[n][:3], D[n][:3], 1e-6 if not shells else 1e-5, st, 'rigid motion of the supports: node %s' % n)
        free = max(np.abs(x).max() for x in [e.f for l in sol.els.values() for e in l] + [np.zeros(1)])
        kd = max([np.abs(e.kk).max()*np.abs(e.d).max() for l in sol.els.values() for e in l] + [1.0])
        for n, x in ops.reac(m, 'Z').items():
            rec.true(key + ':R' + n, np.abs(x).max() <= 1e-9*kd + (1e-3 if shells else 0), 'rigid motion causes reactions %s at %s' % (x, n))
        rec.trace()
        rec.outcome((s, t, w))


def known(case, rec):
    """every freedom of the structure known, by supports and by displacements in every mixture of the two per kind of freedom"""
    _, s = case
    h, loads = frames.history(s, [])
    h = h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)] + [['combo', 'A', {'K0': 1.0, 'K1': .5}], ['combo', 'Z', {}]]
    r0 = ref.Ref()
    for op in h:
        r0.apply(op)
    for mix in ('111111', '000000', '111000', '010101', '100011'):
        hh = list(h)
        for i, (n, nd) in enumerate(r0.nodes.items()):
            hh.append(sup(n, mix))
            hh += [['disp', n, DD[k], round(VAL[k]*math.cos(1.7*i + k), 6)] for k in range(6) if mix[k] == '0' and nd['enf'][k] is None]
        m, r = lockstep(rec, hh)
        sols = {c: r.solve(c) for c in 'AZ'}
        for f, o in (('analyze', {}), ('analyze_linear', {}), ('pdelta', {}), ('analyze', dict(sparse=False)), ('analyze_linear', dict(sparse=False)),
                     ('pdelta', dict(sparse=False)), ('analyze', dict(check_stability=False))):
            ops.apply_real(m, [f, o])
            rec.step()
            for c, sol in sols.items():
                key = 'known:%s:%s:%s:%s:%s' % (s, mix, f, ''.join(map(str, o)), c)
                exact(rec, key, m, r, c)
                if f != 'pdelta':
                    cmp_reac(rec, key, m, sol, r, c, fscale=floor(sol))
                rec.trace()
                rec.outcome((key, c))


def run(case, rec):
    {'joint': joint, 'edit': edit, 'rigid': rigid, 'known': known}[case[0]](case, rec)
