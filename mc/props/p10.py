"""History independence: results depend on the current model only."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, MAT2, member, sup, rel, same_structure
from .p06 import results

ID = 'P10'
TITLE = 'Results depend only on the current model, not on how it got there'
RULE = ('every sequence analysis-query-edit{0..d}-query-analysis over an alphabet of edits (every editing operation of the model), five '
        'analyses and two query sweeps; after every analysis all results equal those of a freshly built identical model')
ASSUMPTIONS = ['edits are made through the model\'s methods, or set a property of one of its objects; redefining a load combination under its name replaces it']

n = frames.n
BASES = {
    'frame': [MAT, MAT2, n('A', 0, 0, 0), n('B', 0, 10, 0), n('C', 12, 10, 0), n('D', 12, 0, 0), n('E', 12, 10, 8),
              ['aux', 'X', 4., -7., 11.],
              member('M1', 'A', 'B'), member('M2', 'B', 'C', ['W', 90., 140., 55., 6.], aux_node='X'), member('M3', 'D', 'C'),
              member('T1', 'A', 'C', ['S', 3., 5., 2., .4], tension_only=True), rel('T1', '000011000011'),
              member('T2', 'B', 'D', ['S', 3., 5., 2., .4], tension_only=True), rel('T2', '000011000011'),
              ['spring', 'S1', 'E', 'C', 12.0], sup('A', '111111'), sup('D', '111011'), sup('E', '111111'), ['sspring', 'C', 'DY', 9.0, '-'],
              ['combo', 'P', {'K0': 1.0, 'K1': 1.2}, ['a']], ['combo', 'Q', {'K1': -1.5, 'K2': 1.0}, ['b', 'a']], ['combo', 'R', {'K2': 2.0}],
              ['nload', 'B', 'FX', 6.0, 'K0'], ['nload', 'C', 'FY', -9.0, 'K1'], ['dload', 'M2', 'FY', -.2, -.4, 1., 10., 'K1'],
              ['ptload', 'M1', 'Fz', 1.5, 4.0, 'K2'], ['nload', 'C', 'FX', -5.0, 'K2'], ['disp', 'D', 'DX', .05]],
    'shell': [frames.SHELLM, MAT, n('P0', 0, 0, 0), n('P1', 4, 0, 0), n('P2', 4, 3, 0), n('P3', 0, 3, 0), n('P4', 8, 0, 0), n('P5', 8, 3, 0), n('U', 8, 3, 5),
              ['quad', 'Q1', 'P0', 'P1', 'P2', 'P3', .4, 'C'], ['plate', 'R1', 'P1', 'P4', 'P5', 'P2', .3, 'C'],
              member('C1', 'U', 'P5'), sup('P0', '111111'), sup('P3', '111000'), sup('U', '111111'), ['sspring', 'P4', 'DZ', 7.0],
              ['combo', 'P', {'K0': 1.0}, ['a']], ['combo', 'Q', {'K1': -1.5, 'K0': .5}, ['b']],
              ['qpress', 'Q1', .03, 'K0'], ['ppress', 'R1', -.02, 'K1'], ['nload', 'P5', 'FY', 2.0, 'K1']],
}
# six independent lines, each with a two-way spring and one element that acts one way only
BASES['oneway'] = [MAT, ['combo', 'P', {'K0': 1.0}, ['a']], ['combo', 'Q', {'K0': -1.0, 'K1': .5}, ['b']], ['combo', 'R', {'K1': 1.0}, ['a', 'b']]]
for _i, _op in enumerate((['spring', 'E', 'A', 'B', 10., dict(tension_only=True)], ['spring', 'E', 'A', 'B', 11., dict(comp_only=True)],
                          ['member', 'E', 'A', 'B', 'S', 60., 150., 25., .01, dict(tension_only=True)],
                          ['member', 'E', 'A', 'B', 'S', 60., 150., 25., .012, dict(comp_only=True)],
                          ['sspring', 'B', 'DX', 9., '+'], ['sspring', 'B', 'DX', 8., '-'])):
    _nm = lambda x: '%s%d' % (x, _i)
    BASES['oneway'] += [n(_nm('A'), 0, 0, 5*_i), n(_nm('B'), 6 + _i, 0, 5*_i), n(_nm('C'), 15, 0, 5*_i), sup(_nm('A'), '111111'), sup(_nm('C'), '111111'),
                        sup(_nm('B'), '011111'), ['spring', _nm('S'), _nm('C'), _nm('B'), 4. + _i],
                        [_op[0], _nm(_op[1])] + [_nm(x) if x in ('A', 'B') else x for x in _op[2:]],
                        ['nload', _nm('B'), 'FX', (-1)**_i*2.0, 'K0'], ['nload', _nm('B'), 'FX', (-1)**(_i//2)*3.0, 'K1']]
EDITS = {
    'oneway': [['nload', 'B%d' % i, 'FX', (-1)**(i + 1)*5.0, 'K%d' % j] for i in range(6) for j in range(2)] + [
        ['del_loads'], ['combo', 'P', {'K0': -1.0}, ['a']], ['combo', 'S', {'K0': .5, 'K1': -1.0}, ['b', 'a']]],
    'frame': [['nload', 'B', 'FZ', 2.5, 'K0'], ['dload', 'M3', 'Fz', .1, .3, None, None, 'K2'], ['ptload', 'M2', 'Mz', 7.0, 5.0, 'K1'],
              ['support', 'D', [True]*3 + [False]*3], ['support', 'D', [True]*6], ['release', 'M2', [False]*5 + [True] + [False]*6], ['disp', 'A', 'DY', -.1],
              ['disp', 'D', 'DX', None], ['node', 'V', 0, 4, 0], ['node', 'V2', 7.2, 10, 0], ['del_member', 'T1'],
              ['member', 'N1', 'A', 'C', 'S', 30., 40., 20., 3.], ['del_loads'], ['sspring', 'B', 'DX', 30.0], ['sspring', 'B', 'DZ', 3.0, '+'],
              ['combo', 'S', {'K0': -1.0, 'K2': .5}, ['c', 'a']], ['combo', 'P', {'K0': -2.0}, ['b']], ['spring', 'S2', 'A', 'C', 20.0, dict(tension_only=True)],
              ['del_spring', 'S1'], ['del_node', 'E'], ['del_aux', 'X'], ['selfw', 'FY', -1.0, 'K1'], ['merge'],
              ['setmember', 'M1', 'Iz', 400.0], ['node', 'B2', 0, 10, 0],
              ['set', 'node', 'D', 'Y', -1.5], ['set', 'node', 'B', 'X', -.8], ['set', 'aux', 'X', 'Y', 9.0], ['set', 'spring', 'S1', 'ks', 30.0],
              ['set', 'member', 'T1', 'A', 1.1], ['set', 'member', 'M3', 'tension_only', True]],
    'shell': [['qpress', 'Q1', .05, 'K1'], ['ppress', 'R1', .05, 'K0'], ['del_loads'], ['nload', 'P2', 'FZ', 1.0, 'K0'], ['support', 'P4', [True]*3 + [False]*3],
              ['sspring', 'P5', 'DX', 11.0], ['disp', 'P3', 'DZ', .02], ['quad', 'Q2', 'P1', 'P4', 'P5', 'P2', .1, 'C'], ['node', 'V', 8, 3, 2.5],
              ['del_node', 'U'], ['combo', 'P', {'K1': 1.0}, ['b']], ['plate', 'R2', 'P0', 'P1', 'P2', 'P3', .2, 'C'], ['member', 'C2', 'U', 'P2', 'S', 60., 150., 25., 10.],
              ['set', 'node', 'P0', 'X', -1.0], ['set', 'node', 'U', 'Z', 6.0], ['set', 'quad', 'Q1', 't', .55], ['set', 'plate', 'R1', 't', .2],
              ['set', 'quad', 'Q1', 'kx_mod', .5], ['set', 'plate', 'R1', 'ky_mod', .5]],
}
ANALYSES = [['analyze', {}], ['analyze_linear', {}], ['pdelta', {}], ['analyze', dict(combo_tags=['a'])], ['analyze', dict(sparse=False, check_statics=True)],
            ['pdelta', dict(combo_tags=['b'])]]


def cases(tier):
    th = tier != 'quick'
    out = []
    for b in BASES:
        na = len(ANALYSES) if b == 'frame' else 5
        ne = len(EDITS[b])
        for a1 in range(na):
            out.append([b, a1, []])
            for e in range(ne):
                out.append([b, a1, [e]])
        for p in itertools.permutations(range(ne), 2):
            if th or (p[0]*7 + p[1]*3) % 4 == 0 or b == 'shell':
                out.append([b, (p[0] + p[1]) % na, list(p)])
    if th:
        for p in itertools.permutations(range(len(EDITS['shell'])), 3):
            out.append(['shell', sum(p) % 5, list(p)])
        for p in itertools.permutations((3, 5, 6, 8, 10, 12, 14, 16, 17, 20, 22), 3):
            out.append(['frame', sum(p) % 6, list(p)])
    return out


def canon(r):
    """a construction of the abstract model from scratch"""
    h = [['mat', k, *v] for k, v in r.mats.items()]
    h += [['node', k, *v['p']] for k, v in r.nodes.items()]
    h += [['aux', k, *v] for k, v in r.aux.items()]
    for k, m in r.members.items():
        kw = dict(tension_only=m['to'], comp_only=m['co'])
        if m['aux']:
            kw['aux_node'] = m['aux']
        h.append(['member', k, m['i'], m['j'], m['mat'], m['Iy'], m['Iz'], m['J'], m['A'], kw])
        h.append(['release', k, m['rel']])
        h += [['ptload', k, *l] for l in m['pt']] + [['dload', k, *l] for l in m['dist']]
    for k, s in r.springs.items():
        h.append(['spring', k, s['i'], s['j'], s['ks'], dict(tension_only=s['to'], comp_only=s['co'])])
    for (kind, k), s in r.shells.items():
        h.append([kind, k, *s['n'], s['t'], s['mat'], dict(kx_mod=s['kx'], ky_mod=s['ky'])])
        h += [['qpress' if kind == 'quad' else 'ppress', k, p, c] for p, c in s['press']]
    for k, nd in r.nodes.items():
        h.append(['support', k, nd['sup']])
        h += [['sspring', k, ref.DOFS[d], ks] + ([sg] if sg else []) for d, (ks, sg) in nd['spr'].items()]
        h += [['disp', k, ref.DOFS[d], v] for d, v in enumerate(nd['enf']) if v is not None]
        h += [['nload', k, *l] for l in nd['loads']]
    h += [['combo', k, f] + ([t] if t else []) for k, (f, t) in r.combos.items()]
    return h


def snapshot(m, combos):
    return {c: dict(results(m, c)) for c in combos}


def sweep(m, combos):
    """extreme and array queries (they fill per-member caches), in an awkward order"""
    for c in list(combos) + list(combos)[::-1]:
        for mem in m.members.values():
            mem.max_moment('Mz', c), mem.min_deflection('dy', c), mem.shear_array('Fy', 5, c), mem.max_axial(c), mem.torque(1.0, c)
        for q in list(m.quads.values()) + list(m.plates.values()):
            q.moment(0, 0, True, c)


def outcome(m, an):
    """results per analysed combination, or the class of refusal"""
    try:
        ops.apply_real(m, an)
    except Exception as e:
        if any(w in str(e) for w in ('nstable', 'singular', 'diverge')):
            return None, 'refused'
        raise
    tags = an[1].get('combo_tags')
    cs = [c for c, o in m.load_combos.items() if tags is None or (o.combo_tags and set(tags) & set(o.combo_tags))]
    return cs, snapshot(m, cs)


def compare(rec, key, m, r, an):
    cs, got = outcome(m, an)
    fresh = ops.build(canon(r))
    ws, want = outcome(fresh, an)
    rec.step(2)
    if want == 'refused' or got == 'refused':
        rec.true(key + ':refusal', want == got, 'analysis %s: %s on the edited model, %s on a fresh identical one' % (
            an, 'refused' if got == 'refused' else 'solved', 'refused' if want == 'refused' else 'solved'))
        return
    rec.true(key + ':combos', cs == ws, 'analysed combinations %s, expected %s' % (cs, ws))
    for c in cs:
        big = {}
        for lab, x in want[c].items():
            g = lab.split(':')[0]
            big[g] = max(big.get(g, 1e-3), np.abs(x).max() if x.size else 0)
        rec.true('%s:%s:labels' % (key, c), set(got[c]) == set(want[c]), 'objects differ: %s' % sorted(set(got[c]) ^ set(want[c])))
        for lab, x in want[c].items():
            if lab in got[c]:
                rec.close('%s:%s:%s' % (key, c, lab), got[c][lab], x, 1e-6, big[lab.split(':')[0]], 'combo %s %s after the edits versus a fresh model' % (c, lab))
    # nothing of an earlier analysis is left for combinations that were not analysed
    for c in m.load_combos:
        if c not in cs:
            left = [(k, a) for k, nd in m.nodes.items() for a in ops.DOFS + ops.RXN if c in getattr(nd, a)]
            rec.true('%s:%s:stale' % (key, c), not left, 'combination %s was not analysed but still has results: %s' % (c, left[:4]))
    rec.trace()
    rec.outcome((key, tuple(cs)))


def run(case, rec):
    b, a1, es = case
    h = BASES[b]
    m, r = ops.new_model(), ref.Ref()
    for op in h:
        ops.apply_real(m, op)
        r.apply(op)
    log = [ANALYSES[a1]]
    rec.history = [b] + log
    ops.apply_real(m, ANALYSES[a1])
    rec.step()
    tags = ANALYSES[a1][1].get('combo_tags')
    sweep(m, [c for c, (f, t) in r.combos.items() if tags is None or (t and set(t) & set(tags))])
    key = '%s:%d:%s' % (b, a1, '.'.join(map(str, es)))
    for e in es:
        op = EDITS[b][e]
        log.append(op)
        if invalid(r, op):
            return
        ops.apply_real(m, op)
        r.apply(op)
        rec.step()
        rec.state((b, a1, es[:es.index(e) + 1]))
        if op[0] not in ('setmember', 'set', 'aux', 'merge'):
            rec.true(key + ':flag', m.solution is None, '%s left the model flagged as solved (%r)' % (op, m.solution))
    same_structure(rec, m, r, key)
    finals = [0, 2, 3, 4] if not es else [0, 2, 3] if len(es) == 1 else [a1, (a1 + 2) % 3]
    for a2 in finals:
        if a2 == 3 and b == 'x':
            continue
        compare(rec, '%s:%d' % (key, a2), m, r, ANALYSES[a2])
        log.append(ANALYSES[a2])


def invalid(r, op):
    """the operation refers to something an earlier one removed"""
    k, a = op[0], op[1:]
    if k == 'set':
        return a[1] not in (r.nodes if a[0] == 'node' else r.aux if a[0] == 'aux' else r.members if a[0] == 'member' else r.springs if a[0] == 'spring' else
                            {n for kind, n in r.shells if kind == a[0]})
    if k in ('nload', 'support', 'disp', 'sspring', 'del_node'):
        return a[0] not in r.nodes
    if k in ('ptload', 'dload', 'release', 'setmember', 'del_member'):
        return a[0] not in r.members
    if k in ('member', 'spring'):
        return a[1] not in r.nodes or a[2] not in r.nodes or a[0] in r.members or a[0] in r.springs
    if k in ('quad', 'plate'):
        return any(x not in r.nodes for x in a[1:5])
    if k == 'del_spring':
        return a[0] not in r.springs
    if k == 'del_aux':
        return a[0] not in r.aux
    if k == 'node':
        return a[0] in r.nodes
    return False
