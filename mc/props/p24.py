"""Load cases, combinations, tags and self weight apply exactly as defined."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, MAT2, cmp_diagrams, cmp_disp, cmp_reac, lockstep, member, rel, sup
from .p06 import results

ID = 'P24'
TITLE = 'Load cases, combinations, tags and self weight apply exactly as defined'
RULE = ('every kind of load twice in two cases x every pair of factors; every assignment of the loads of one model to three cases; every assignment '
        'of tags to three combinations x every tag query x entry point x earlier query; every sequence of load and combination edits '
        'with an analysis after each; self weight for every direction, material, section and subdivision')
ASSUMPTIONS = ['adding a load combination under an existing name replaces it', 'tags are given as lists or other collections of strings']
ENTRY = (['analyze', {}], ['analyze_linear', {}], ['pdelta', {}])

BASE = [MAT, MAT2, frames.SHELLM] + [frames.n(a, *p) for a, p in (
    ('A', (0, 0, 0)), ('B', (4, 3, 1)), ('C', (9, 3, 1)), ('D', (9, 3, 5)), ('E', (4, 3, 5)), ('F', (9, -4, 1)), ('G', (14, 3, 5)), ('H', (14, 3, 1)))] + [
    member('M1', 'A', 'B'), member('M2', 'C', 'B', ['W', 90., 140., 55., 6.]), ['spring', 'S', 'C', 'F', 25.0],
    ['quad', 'Q', 'B', 'C', 'D', 'E', .4, 'C'], ['plate', 'R', 'C', 'H', 'G', 'D', .3, 'C'],
    sup('A', '111111'), sup('F', '111111'), sup('E', '111000'), sup('D', '010000'), sup('G', '010000'), ['sspring', 'B', 'DY', 30.0]]
KINDS = ([('nload', 'B', d) for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] +
         [('nload', 'E', 'FX'), ('nload', 'A', 'FY')] +
         [('ptload', 'M1', d) for d in ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] +
         [('dload', 'M2', d) for d in ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ')] + [('qpress', 'Q'), ('ppress', 'R')] +
         [('selfw', d) for d in ('FX', 'FY', 'FZ')])


def load(k, mag, case):
    if k[0] == 'nload':
        return ['nload', k[1], k[2], mag, case]
    if k[0] == 'ptload':
        return ['ptload', k[1], k[2], mag, 1.7, case]
    if k[0] == 'dload':
        return ['dload', k[1], k[2], .1*mag, .3*mag, .5, 4.2, case]
    if k[0] == 'selfw':
        return ['selfw', k[1], mag, case]
    return [k[0], k[1], .05*mag, case]


ASG = [('nload', 'B', 'FX'), ('ptload', 'M1', 'My'), ('dload', 'M2', 'FY'), ('qpress', 'Q'), ('ppress', 'R'), ('nload', 'D', 'FY'), ('selfw', 'FY')]
TAGS = [None, [], ['a'], ['b'], ['a', 'b'], ['b', 'c'], ('c',)]
QUERIES = [None, [], ['a'], ['b'], ['a', 'b'], ['c', 'a'], ('c',), ['zz'], ['zz', 'b'], ['ab']]


def cases(tier):
    th = tier != 'quick'
    out = [['kind', i] for i in range(len(KINDS))]
    for a in itertools.product(range(3), repeat=len(ASG) if th else 5):
        if a[0] == 0 or th:
            out.append(['assign', list(a)])
    for a in range(len(TAGS)):
        for b in range(len(TAGS)):
            out.append(['tags', a, b, th])
    for e in range(len(EDITS)):
        if th:
            out += [['edit', [e, f], 4] for f in range(len(EDITS))]
        else:
            out.append(['edit', [e], 3])
    for s in ('portal', 'space', 'cont', 'braced', 'springs', 'mixed'):
        out.append(['selfw', s])
    return out


def scales(*rs):
    sc = {}
    for r in rs:
        for lab, x in r:
            g = lab.split(':')[0]
            sc[g] = max(sc.get(g, 1e-6), np.abs(x).max() if x.size else 0)
    return sc


def equal(rec, key, got, want, msg, sc, tol=1e-6):
    w = dict(want)
    for lab, x in got:
        rec.close('%s:%s' % (key, lab), x, w[lab], tol, sc[lab.split(':')[0]], '%s: %s' % (msg, lab))


def cases_named(rec, key, m, r):
    want = {l[2] for nd in r.nodes.values() for l in nd['loads']} | {l[-1] for x in r.members.values() for l in x['pt'] + x['dist']} | {
        c for s in r.shells.values() for _, c in s['press']}
    rec.true(key + ':load_cases', m.load_cases == sorted(want), 'load cases %s, those in use are %s' % (m.load_cases, sorted(want)))


def solved(rec, key, m, r, combos, diagrams=True, pdelta=False):
    for c in combos:
        if not pdelta:
            sol = r.solve(c)
            cmp_disp(rec, '%s:%s' % (key, c), m, sol, c)
            cmp_reac(rec, '%s:%s' % (key, c), m, sol, r, c)
            if diagrams:
                for n in r.members:
                    cmp_diagrams(rec, '%s:%s' % (key, c), m, sol, n, c)


def kind(case, rec):
    k = KINDS[case[1]]
    F = (None, 0.0, 1.0, -1.5)
    h = BASE + [load(k, 2.0, 'K0'), load(k, -.7, 'K1'), load(k, .4, 'K0'), ['nload', 'C', 'FZ', 1.0, 'other']]
    combos = []
    for a, b in itertools.product(range(4), repeat=2):
        f = {n: F[x] for n, x in (('K0', a), ('unused', 2), ('K1', b)) if F[x] is not None}
        combos.append(('c%d%d' % (a, b), f))
    h = h + [['combo', n, f] for n, f in combos]
    key = 'kind:' + '.'.join(k)
    m, r = lockstep(rec, h)
    cases_named(rec, key, m, r)
    one = {}
    for c, mag in (('K0', 1.0), ('K1', 1.0), (None, 0)):
        m1 = ops.build(BASE + ([load(k, 1.0, 'X')] if c else []) + [['combo', 'U', {'X': 1.0}]])
        ops.apply_real(m1, ENTRY[0])
        one[c] = results(m1, 'U')
    unit, zero = one['K0'], dict(one[None])
    for e in ENTRY[:2]:
        ops.apply_real(m, e)
        rec.step()
        for n, f in combos:
            t = f.get('K0', 0)*2.4 + f.get('K1', 0)*-.7
            want = [(lab, t*x) for lab, x in unit]
            equal(rec, '%s:%s:%s' % (key, e[0], n), results(m, n), want, 'combo %s %s' % (n, f), scales(unit))
            rec.trace()
            rec.outcome((key, e[0], n))
    solved(rec, key, m, r, ['c22', 'c03', 'c32'])
    # second order: equal combinations of differently split loads
    ops.apply_real(m, ENTRY[2])
    rec.step()
    for n, f in combos:
        t = f.get('K0', 0)*2.4 + f.get('K1', 0)*-.7
        m1 = ops.build(BASE + [load(k, t, 'X')] + [['combo', 'U', {'X': 1.0}]])
        ops.apply_real(m1, ENTRY[2])
        u = results(m1, 'U')
        equal(rec, '%s:pdelta:%s' % (key, n), results(m, n), u, 'P-Delta, combo %s %s' % (n, f), scales(unit), 1e-5)


def assign(case, rec):
    """every distribution of the loads over three cases; five combinations of the cases"""
    a = case[1]
    F = {'c0': {'K0': 1.0}, 'c1': {'K1': 1.3, 'K2': -.4}, 'c2': {'K2': 0.0, 'K0': -1.0, 'K1': 2.0}, 'c3': {}, 'c4': {'K 0': 1.0, 'k0': 2.0, 'K01': 1.0, 'xK1': 2.0, 'K': 3.0}}
    h = BASE + [load(k, 1.0 + .2*i, 'K%d' % c) for i, (k, c) in enumerate(zip(ASG, a + [(sum(a) + j) % 3 for j in range(len(ASG) - len(a))]))] + [['combo', n, f] for n, f in F.items()]
    key = 'assign:' + ''.join(map(str, a))
    m, r = lockstep(rec, h)
    cases_named(rec, key, m, r)
    e = ENTRY[sum(a) % 2]
    ops.apply_real(m, e)
    rec.step()
    for n in F:
        sol = r.solve(n)
        cmp_disp(rec, '%s:%s' % (key, n), m, sol, n)
        cmp_reac(rec, '%s:%s' % (key, n), m, sol, r, n)
        for q in ('M1', 'M2'):
            cmp_diagrams(rec, '%s:%s' % (key, n), m, sol, q, n)
        rec.trace()
        rec.outcome((key, n))


def tiny():
    return [MAT, frames.n('A', 0, 0, 0), frames.n('B', 6, 0, 0), frames.n('C', 9, 0, 0), member('M', 'A', 'B'), ['spring', 'S', 'B', 'C', 10.0],
            sup('A', '111111'), sup('C', '111111'), ['nload', 'B', 'FX', 3.0, 'D'], ['nload', 'B', 'FY', -3.0, 'L'], ['dload', 'M', 'Fz', .3, .3, None, None, 'W']]


def tags(case, rec):
    _, a, b, th = case
    fac = ({'D': 1.0, 'L': -.5}, {'L': 1.6}, {'W': 1.0, 'D': .9})
    names = ('P', 'Q', 'R')
    for c in range(len(TAGS)):
        T = [TAGS[a], TAGS[b], TAGS[c]]
        h = tiny() + [['combo', n, f] + ([t] if t is not None else []) for n, f, t in zip(names, fac, T)]
        r = ref.Ref()
        for op in h:
            r.apply(op)
        sols = {n: r.solve(n) for n in names}
        m = ops.build(h)
        rec.history = h
        for i, q in enumerate(QUERIES):
            want = [n for n, t in zip(names, T) if q is None or (t and set(t) & set(q))]
            for e in (ENTRY if th else (ENTRY[(a + b + c + i) % 3],)):
                ops.apply_real(m, [e[0], dict(combo_tags=q) if q is not None or i % 2 else {}])
                rec.step()
                rec.state((T, q, e[0]))
                key = ('tags:%d%d%d:%d:%s' % (a, b, c, i, e[0]))
                nd = m.nodes['B']
                for attr in ops.DOFS + ops.RXN:
                    rec.true(key + ':' + attr, sorted(getattr(nd, attr)) == sorted(want),
                             'analysis with tags %s of combinations tagged %s has %s for %s, expected %s' % (q, dict(zip(names, T)), attr, sorted(getattr(nd, attr)), want))
                if e[0] != 'pdelta':
                    for n in want:
                        if n in nd.DX:
                            cmp_disp(rec, key + ':' + n, m, sols[n], n)
                            cmp_reac(rec, key + ':' + n, m, sols[n], r, n)
                rec.trace()
                rec.outcome((T, q, e[0]))


# load and combination edits; shared dictionaries included
EDITS = [['nload', 'B', 'FY', -2.0, 'K0'], ['ptload', 'M1', 'FZ', 1.5, 2.0, 'K1'], ['dload', 'M2', 'Fy', -.2, -.5, 1.0, 5.0, 'K0'],
         ['qpress', 'Q', .08, 'K1'], ['ppress', 'R', -.05, 'K0'], ['selfw', 'FY', -1.0, 'K1'], ['del_loads'], ['combo', 'P', {'K1': 2.0}],
         ['combo', 'N', {'K0': -1.0, 'K1': 1.0}, ['t']], ['addcase', 'P', 'K1', -1.5], ['delcase', 'P', 'K0'], ['shared', 'P', 'N', {'K0': .5, 'K1': .5}, 'K1', 3.0]]


def edit(case, rec):
    _, pre, depth = case
    h = BASE + [['nload', 'B', 'FX', 2.0, 'K0'], ['ptload', 'M2', 'Fy', 1.0, 2.0, 'K0'], ['combo', 'P', {'K0': 1.0}]]
    for rest in itertools.product(range(len(EDITS)), repeat=depth - len(pre)):
        seq = list(pre) + list(rest)
        if any(x >= 9 for x in seq) is False and seq != sorted(seq) and 6 not in seq and 7 not in seq and 8 not in seq:
            continue            # pure load additions commute: one order is explored
        m, r = ops.build(h), ref.Ref()
        for op in h:
            r.apply(op)
        hist = list(h)
        key = 'edit:' + '-'.join(map(str, seq))
        for i, k in enumerate(seq):
            op = EDITS[k]
            hist = hist + [op]
            rec.history = hist
            apply(m, r, op)
            rec.step()
            rec.state(seq[:i + 1])
            last = i == len(seq) - 1
            if not last and (i + k) % 2:
                continue
            ops.apply_real(m, ENTRY[(i + k) % 2])
            rec.step()
            if not last:
                # fill the caches of the members before the next edit
                for mem in m.members.values():
                    mem.max_moment('Mz', 'P'), mem.shear('Fy', 1.0, 'P'), mem.deflection('dy', 1.0, 'P')
                continue
            cases_named(rec, key, m, r)
            for c in r.combos:
                sol = r.solve(c)
                cmp_disp(rec, '%s:%s' % (key, c), m, sol, c)
                cmp_reac(rec, '%s:%s' % (key, c), m, sol, r, c)
                for q in ('M1', 'M2'):
                    cmp_diagrams(rec, '%s:%s' % (key, c), m, sol, q, c)
            rec.trace()
            rec.outcome(seq)


def apply(m, r, op):
    if op[0] == 'addcase':
        m.load_combos[op[1]].AddLoadCase(op[2], op[3])
        r.combos[op[1]][0][op[2]] = op[3]
    elif op[0] == 'delcase':
        if op[2] in r.combos[op[1]][0]:
            m.load_combos[op[1]].DeleteLoadCase(op[2])
            del r.combos[op[1]][0][op[2]]
    elif op[0] == 'shared':
        # one dictionary reused by the caller for two combinations and changed in between and afterwards
        f = dict(op[3])
        m.add_load_combo(op[1], f)
        r.op_combo(op[1], op[3])
        f[op[4]] = op[5]
        m.add_load_combo(op[2], f)
        r.op_combo(op[2], f)
        m.load_combos[op[2]].AddLoadCase('K0', -2.0)
        r.combos[op[2]][0]['K0'] = -2.0
        f.clear()
    else:
        ops.apply_real(m, op)
        r.apply(op)


def selfw(case, rec):
    s = case[1]
    h, loads = frames.history(s, [])
    if s == 'portal':
        h = h + [MAT2, member('X', 'N1', 'N3', ['W', 30., 40., 20., 3.], tension_only=False), ['node', 'V', 0, 5, 0], ['node', 'V2', 5, 12, 0]]
    for i, d in enumerate(('FX', 'FY', 'FZ')):
        for f in (-1.0, 2.5, 0.0):
            hh = h + [['selfw', d, f, 'SW'], ['selfw', 'FY', .5, 'Case 1']] + [list(loads[0]) + ['Case 1']]
            # the last member gets another section after the self weight was added; its load stays
            hh = hh + [['combo', 'P', {'SW': 1.4}], ['combo', 'Q', {'Case 1': 1.0, 'SW': -1.0}]]
            key = 'selfw:%s:%s:%s' % (s, d, f)
            m, r = lockstep(rec, hh)
            cases_named(rec, key, m, r)
            ops.apply_real(m, ENTRY[i % 2])
            rec.step()
            solved(rec, key, m, r, ['P', 'Q'])
            W = 1.4*f*sum(r.mats[x['mat']][3]*x['A']*r.length(n) for n, x in r.members.items())
            if not r.shells and not any(any(nd['enf'][k] for k in range(6) if nd['enf'][k]) for nd in r.nodes.values()):
                tot = sum(v for v in ops.reac(m, 'P').values())
                for k in range(3):
                    rec.close('%s:total:%d' % (key, k), tot[k], -W if k == i else 0.0, 1e-6, abs(W) + 1e-3, 'total reaction to self weight')
            rec.trace()
            rec.outcome(key)
    # no combinations defined: a default one with the default case
    m, r = ops.new_model(), ref.Ref()
    for op in h + [['selfw', 'FY', -1.0], list(loads[0])]:
        ops.apply_real(m, op)
        r.apply(op)
    r.apply(['combo', 'Combo 1', {'Case 1': 1.0}])
    for e in ENTRY[:2]:
        ops.apply_real(m, e)
        solved(rec, 'default:%s:%s' % (s, e[0]), m, r, ['Combo 1'])
    op = ['combo', 'T', {'Case 1': 2.0}]
    ops.apply_real(m, op)
    r.apply(op)
    ops.apply_real(m, ENTRY[0])
    solved(rec, 'default2:%s' % s, m, r, ['T', 'Combo 1'])
    # combinations made with default arguments do not share their factors
    from PyNite.LoadCombo import LoadCombo
    a, b = LoadCombo('a'), LoadCombo('b')
    a.AddLoadCase('K0', 2.0)
    rec.true('combo:shared', b.factors == {} and LoadCombo('c').factors == {}, 'adding a load case to one combination also adds it to another: %s' % b.factors)


def run(case, rec):
    {'kind': kind, 'assign': assign, 'tags': tags, 'edit': edit, 'selfw': selfw}[case[0]](case, rec)
