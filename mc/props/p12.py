"""Deletion of nodes, members, springs and reference nodes."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import same_structure
from .p06 import results
from .p10 import canon

ID = 'P12'
TITLE = 'Deleting an object removes everything that depends on it and nothing else'
RULE = ('every structure x every deletable object and every ordered pair of them (triples in small structures, thorough), deleted before '
        'or after an analysis; all loads of every structure deleted before and after every analysis; models with generated meshes included')
ASSUMPTIONS = ['results are compared when the remaining structure is stable']


def start(s):
    if s == 'mesh':
        m = [frames.SHELLM]
        return m
    st = frames.ALL[s]()
    return st['base'] + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(st['loads'])] + [
        ['combo', 'A', {'K0': 1.0, 'K1': .6}], ['combo', 'B', {'K1': -1.0}]]


def targets(s):
    r = ref.Ref()
    for op in start(s):
        r.apply(op)
    return ([['del_node', n] for n in r.nodes] + [['del_member', n] for n in r.members] + [['del_spring', n] for n in r.springs] +
            [['del_aux', n] for n in r.aux])


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in frames.ALL:
        if not th and s in ('quad-YZ', 'quad-XZ', 'plate-YZ', 'plate-XZ', 'plate-SK', 'quad-SK'):
            continue
        t = targets(s)
        for d in (1, 2, 3):
            if d == 3 and not (th and len(t) < 13):
                continue
            for p in itertools.permutations(range(len(t)), d):
                if d == 2 and not th and s in ('mixed', 'braced', 'settle') and (p[0] + 2*p[1]) % 3:
                    continue
                out.append([s, list(p), sum(p) % 2])
    for s in frames.ALL:
        out += [['loads', s, a] for a in ('none', 'analyze', 'analyze_linear', 'pdelta')]
    for k in ('Quad', 'Rect'):
        out += [['mesh', i, k] for i in range(9)]
    return out


def orphans(r):
    used = {x for m in list(r.members.values()) + list(r.springs.values()) for x in (m['i'], m['j'])}
    used |= {x for s in r.shells.values() for x in s['n']}
    return {n for n in r.nodes if n not in used}


def loads(case, rec):
    """deleting all loads leaves the structure, its supports, enforced displacements and combinations, and no results"""
    _, s, a = case
    h = start(s)
    m, r = ops.build(h), ref.Ref()
    for op in h:
        r.apply(op)
    if a != 'none':
        ops.apply_real(m, [a, {}])
    before = registry(m)
    rec.history = [s, a, 'del_loads']
    key = 'loads:%s:%s' % (s, a)
    ops.apply_real(m, ['del_loads'])
    r.apply(['del_loads'])
    rec.step()
    rec.state((s, a))
    same_structure(rec, m, r, key)
    after = registry(m)
    rec.true(key + ':identity', set(before) == set(after) and all(before[k] is after[k] for k in before), 'deleting the loads removed or replaced objects')
    rec.true(key + ':combos', {c: dict(x.factors) for c, x in m.load_combos.items()} == {c: dict(x['factors'] if isinstance(x, dict) else x[0]) for c, x in r.combos.items()},
             'combinations changed: %s' % {c: x.factors for c, x in m.load_combos.items()})
    for nd in m.nodes.values():
        for q in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ', 'RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ'):
            rec.true('%s:%s:%s' % (key, nd.name, q), not getattr(nd, q), 'node %s still has results %s = %s' % (nd.name, q, getattr(nd, q)))
        rec.true('%s:%s:nload' % (key, nd.name), not nd.NodeLoads, 'node %s still has loads %s' % (nd.name, nd.NodeLoads))
    for mb in m.members.values():
        rec.true('%s:%s:load' % (key, mb.name), not mb.DistLoads and not mb.PtLoads, 'member %s still has loads %s %s' % (mb.name, mb.DistLoads, mb.PtLoads))
    for e in list(m.plates.values()) + list(m.quads.values()):
        rec.true('%s:%s:press' % (key, e.name), not e.pressures, 'element %s still has pressures %s' % (e.name, e.pressures))
    rec.true(key + ':unsolved', m.solution is None, 'model is still flagged as solved')
    # loading and analysing it again gives what a new model gives
    for again in (0, 1):
        try:
            for c in r.combos:
                r.solve(c)
        except ref.Unstable:
            return
        fresh = ops.build(canon(r))
        for x in (m, fresh):
            ops.apply_real(x, ['analyze', {}])
        rec.step(2)
        rec.trace()
        compare(rec, key + ':%d' % again, r, fresh, m)
        for l in frames.ALL[s]()['loads'][:3]:
            for x in (m, r):
                (ops.apply_real(m, list(l) + ['K1']) if x is m else r.apply(list(l) + ['K1']))


def compare(rec, key, r, fresh, m):
    for c in r.combos:
        want, got = dict(results(fresh, c)), dict(results(m, c))
        big = {}
        for lab, x in want.items():
            big[lab.split(':')[0]] = max([big.get(lab.split(':')[0], 1e-3)] + list(np.abs(x)))
        rec.true(key + ':labels', set(want) == set(got), 'objects with results: %s, expected %s' % (sorted(got), sorted(want)))
        for lab in want:
            if lab in got:
                rec.close('%s:%s:%s' % (key, c, lab), got[lab], want[lab], 1e-6, big[lab.split(':')[0]],
                          'combo %s %s after deletion versus a model without the deleted objects' % (c, lab))
        rec.outcome((key, c))


def run(case, rec):
    if case[0] == 'loads':
        return loads(case, rec)
    if case[0] == 'mesh':
        return mesh(case, rec)
    s, p, pre = case
    h = start(s)
    ts = targets(s)
    m, r = ops.new_model(), ref.Ref()
    for op in h:
        ops.apply_real(m, op)
        r.apply(op)
    key = '%s:%s:%d' % (s, '.'.join(map(str, p)), pre)
    if pre:
        ops.apply_real(m, ['analyze', {}])
    for i in p:
        op = ts[i]
        k, name = op
        if name not in {'del_node': r.nodes, 'del_member': r.members, 'del_spring': r.springs, 'del_aux': r.aux}[k]:
            return
        before = registry(m)
        ops.apply_real(m, op)
        r.apply(op)
        rec.history = [s] + [ts[q] for q in p]
        rec.step()
        rec.state((s, tuple(sorted(p[:p.index(i)+1]))))
        same_structure(rec, m, r, key)
        rec.true(key + ':shells', set(m.quads) == {n for q, n in r.shells if q == 'quad'} and set(m.plates) == {n for q, n in r.shells if q == 'plate'},
                 'plates %s quads %s left, expected %s' % (list(m.plates), list(m.quads), list(r.shells)))
        rec.true(key + ':aux', set(m.aux_nodes) == set(r.aux), 'auxiliary nodes left: %s' % list(m.aux_nodes))
        after = registry(m)
        rec.true(key + ':identity', all(before.get(k) is v for k, v in after.items()), 'deletion replaced objects that should have stayed')
        rec.true(key + ':orphans', set(m.orphaned_nodes()) == orphans(r), 'orphaned nodes %s, expected %s' % (m.orphaned_nodes(), orphans(r)))
        rec.true(key + ':unsolved', m.solution is None, 'model is still flagged as solved')
    try:
        for c in r.combos:
            r.solve(c)
    except ref.Unstable:
        return
    fresh = ops.build(canon(r))
    for x in (m, fresh):
        ops.apply_real(x, ['analyze', {}])
    rec.step(2)
    rec.trace()
    compare(rec, key, r, fresh, m)


def registry(m):
    return {(k, n): o for k in ('nodes', 'aux_nodes', 'members', 'springs', 'plates', 'quads') for n, o in getattr(m, k).items()}


def mesh(case, rec):
    """deleting a node of a generated mesh: the mesh forgets the node and its elements, and its envelopes still work"""
    _, i, k = case
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    m.add_rectangle_mesh('W', 2., 4., 4., .5, 'C', element_type=k, start_node='N1', start_element='E1')
    m.meshes['W'].generate()
    for nd in m.nodes.values():
        if nd.Y == 0 or nd.X == 0:
            m.def_support(nd.name, *[True]*6)
    el = m.quads if k == 'Quad' else m.plates
    for e in el:
        (m.add_quad_surface_pressure if k == 'Quad' else m.add_plate_surface_pressure)(e, .1)
    nm = sorted(m.nodes)[i]
    gone = {n for n, e in el.items() if nm in (e.i_node.name, e.j_node.name, e.m_node.name, e.n_node.name)}
    keep = set(el) - gone
    rec.history = [case, nm]
    m.delete_node(nm)
    rec.step()
    key = 'mesh:%d:%s' % (i, k)
    el = m.quads if k == 'Quad' else m.plates
    w = m.meshes['W']
    rec.true(key + ':elements', set(el) == keep, 'elements left %s, expected %s' % (sorted(el), sorted(keep)))
    rec.true(key + ':meshnodes', set(w.nodes) == set(m.nodes) and all(w.nodes[n] is m.nodes[n] for n in w.nodes), 'mesh nodes %s, model nodes %s' % (
        sorted(w.nodes), sorted(m.nodes)))
    rec.true(key + ':meshelements', set(w.elements) == keep and all(w.elements[n] is el[n] for n in w.elements), 'mesh elements %s, expected %s' % (
        sorted(w.elements), sorted(keep)))
    for o in list(m.orphaned_nodes()):
        m.delete_node(o)
    if keep:
        m.analyze()
        rec.step()
        hi = w.max_moment('Mx', 'Combo 1')
        rec.true(key + ':envelope', np.isfinite(hi), 'mesh envelope %r' % hi)
    rec.trace()
