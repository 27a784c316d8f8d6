"""merge_duplicate_nodes."""
import itertools

import numpy as np

from .. import frames, ops, ref
from .p06 import results
from .p10 import canon

ID = 'P13'
TITLE = 'Merging duplicate nodes joins everything at coincident nodes and loses nothing'
RULE = ('every structure x every node x every subset of the element ends there moved to a duplicate node x which of the two carries the '
        'supports / support springs / enforced displacements / loads x duplicate created first or last (x pairs of nodes, thorough); '
        'grids of close nodes around the tolerance; models of 120 nodes with one duplicate any number of nodes away; touching meshes')
ASSUMPTIONS = ['at most one of the duplicates carries a support spring or enforced displacement in a given freedom',
               'for chains of nodes in which closeness is not transitive only the distance rule is claimed']


def built(s):
    st = frames.ALL[s]()
    h = st['base'] + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(st['loads'])] + [
        ['combo', 'A', {'K0': 1.0, 'K1': .6}], ['combo', 'B', {'K1': -1.0}]]
    r = ref.Ref()
    for op in h:
        r.apply(op)
    return r


def ends(r, n):
    out = [('members', k, e) for k, m in r.members.items() for e in 'ij' if m[e] == n]
    out += [('springs', k, e) for k, m in r.springs.items() for e in 'ij' if m[e] == n]
    out += [('shells', k, i) for k, s in r.shells.items() for i in range(4) if s['n'][i] == n]
    return out


ATTR = ('sup', 'spr', 'enf', 'loads')
STRUCT = ('portal', 'space', 'springs', 'settle', 'mixed', 'plate-SK', 'quad-XZ', 'cont')


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in STRUCT:
        r = built(s)
        for n in r.nodes:
            k = len(ends(r, n))
            for sub in range(1 << k):
                if not th and k > 2 and bin(sub).count('1') not in (1, k - 1, k):
                    continue
                # which attributes move to the copy: all, none, each alone
                full = s in ('springs', 'settle', 'portal')
                for att in ((0, 15, 1, 2, 4, 8) if th or full else (0, 15)):
                    for first in (0, 1):
                        out.append(['split', s, [[n, sub, att, first]]])
        if th:
            ns = list(r.nodes)
            for a, b in itertools.combinations(ns, 2):
                for sa, sb, first in itertools.product((1, 2, 3), (1, 3), (0, 1)):
                    out.append(['split', s, [[a, sa, 15, first], [b, sb, 0, 1 - first]]])
    for tol in (None, .05, 1e-6):
        for off in (0, .5, .99, 1.01, 3):
            for d in range(7):
                out.append(['near', tol, off, d])
    for g in itertools.product((0, 1, 2), repeat=4):
        out.append(['cluster', list(g)])
    for a in (0, 1, 40, 118):
        for b in range(a + 1, 120):
            if th or a < 2 and b % 3 == a or b % 17 == 0:
                out.append(['far', a, b])
    for k in ('Quad', 'Rect'):
        for order in (0, 1):
            out.append(['mesh', k, order])
    return out


def split(r, moves):
    """the same structure with some element ends (and attributes) on a duplicate node"""
    q = r.clone()
    names = {}
    for n, sub, att, first in moves:
        cp = n + '_copy'
        new = dict(p=q.nodes[n]['p'], sup=[False]*6, spr={}, enf=[None]*6, loads=[])
        es = ends(q, n)
        for i, (d, k, e) in enumerate(es):
            if sub >> i & 1:
                if d == 'shells':
                    t = list(q.shells[k]['n'])
                    t[e] = cp
                    q.shells[k]['n'] = tuple(t)
                else:
                    getattr(q, d)[k][e] = cp
        for i, a in enumerate(ATTR):
            if att >> i & 1:
                new[a], q.nodes[n][a] = q.nodes[n][a], new[a]
        if first:
            q.nodes = {**{cp: new}, **q.nodes}
            names[n] = cp
        else:
            q.nodes[cp] = new
            names[n] = n
    return q, names


def tidy(rec, key, m, tol=.001):
    ns = list(m.nodes.values())
    for a, b in itertools.combinations(ns, 2):
        d = np.linalg.norm([a.X - b.X, a.Y - b.Y, a.Z - b.Z])
        rec.true(key + ':close', d > tol*(1 - 1e-9), 'nodes %s and %s are still %g apart' % (a.name, b.name, d))
    for k, x in m.nodes.items():
        rec.true(key + ':name', x.name == k, 'node %r registered as %r' % (x.name, k))
    for reg, at in (('members', 'ij'), ('springs', 'ij'), ('quads', 'ijmn'), ('plates', 'ijmn')):
        for k, e in getattr(m, reg).items():
            for c in at:
                x = getattr(e, c + '_node')
                rec.true(key + ':attached', m.nodes.get(x.name) is x, '%s %s is attached to node %s, which is not in the model' % (reg, k, x.name))


def cluster(case, rec):
    """four nodes distributed over three points: one node is left per occupied point"""
    g = case[1]
    m = ops.new_model()
    for i, p in enumerate(g):
        m.add_node('n%d' % i, 3.0*p, 1.0, 2.0)
        m.add_node_load('n%d' % i, 'FX', 2.0**i)
    rec.history = [case]
    gone = m.merge_duplicate_nodes()
    rec.step()
    rec.state(tuple(g))
    key = 'cluster:%s' % g
    key = key.replace(' ', '')
    tidy(rec, key, m)
    want = {}
    for i, p in enumerate(g):
        want.setdefault(p, []).append(i)
    rec.true(key + ':count', set(m.nodes) == {'n%d' % v[0] for v in want.values()}, 'nodes left %s for positions %s' % (list(m.nodes), g))
    rec.true(key + ':returned', sorted(gone or []) == sorted('n%d' % i for v in want.values() for i in v[1:]), 'merging returned %r, removed nodes are %s' % (
        gone, ['n%d' % i for v in want.values() for i in v[1:]]))
    for p, v in want.items():
        x = m.nodes.get('n%d' % v[0])
        if x is not None:
            rec.true(key + ':loads', sum(l[1] for l in x.NodeLoads) == sum(2.0**i for i in v), 'loads on %s: %s' % (x.name, x.NodeLoads))


def far(case, rec):
    """a large model with one duplicate, any number of nodes apart in the order of definition"""
    _, a, b = case
    m = ops.new_model()
    p = {}
    for i in range(120):
        p[i] = p[a] if i == b else (i % 7 + .25*(i//7), i//7, i % 3)
        m.add_node('k%d' % i, *p[i])
    for i in range(119):
        m.add_spring('s%d' % i, 'k%d' % i, 'k%d' % (i + 1), 1.0 + i)
    m.def_support('k%d' % b, True, False, True)
    rec.history = [case]
    gone = m.merge_duplicate_nodes()
    rec.step()
    rec.state((a, b))
    key = 'far:%d:%d' % (a, b)
    tidy(rec, key, m)
    rec.true(key + ':nodes', list(m.nodes) == ['k%d' % i for i in range(120) if i != b], 'node k%d coincides with k%d, nodes left: %s' % (b, a, list(m.nodes)))
    rec.true(key + ':returned', list(gone or []) == ['k%d' % b], 'merging returned %r' % (gone,))
    for i in range(119):
        e = m.springs['s%d' % i]
        w = ['k%d' % (a if x == b else x) for x in (i, i + 1)]
        rec.true(key + ':ends', [e.i_node.name, e.j_node.name] == w, 'spring s%d runs from %s to %s' % (i, e.i_node.name, e.j_node.name))
    rec.true(key + ':support', m.nodes['k%d' % a].support_DX and m.nodes['k%d' % a].support_DZ and not m.nodes['k%d' % a].support_DY, 'supports of the removed node')


def near(case, rec):
    """two nodes at off*tolerance from each other along the coordinate axes and diagonals"""
    _, tol, off, d = case
    t = .001 if tol is None else tol
    u = np.array([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (.6, .8, 0), (0, -.6, .8), (1/3**.5,)*3][d])
    m = ops.new_model()
    p = np.array((1., 2., 3.))
    m.add_node('a', *p)
    m.add_node('b', *(p + u*off*t))
    m.add_node('c', *(p + 1))
    m.add_spring('s', 'b', 'c', 3.0)
    m.def_support('b', True)
    rec.history = [case]
    m.merge_duplicate_nodes(*([] if tol is None else [tol]))
    rec.step()
    rec.state(tuple(case[1:]))
    key = 'near:%s:%s:%d' % (tol, off, d)
    tidy(rec, key, m, t)
    rec.true(key, ('b' in m.nodes) == (off > 1) and 'a' in m.nodes and 'c' in m.nodes, 'nodes left: %s at distance %g with tolerance %g' % (list(m.nodes), off*t, t))
    n = m.springs['s'].i_node
    rec.true(key + ':end', n is m.nodes.get('b' if off > 1 else 'a') and n.support_DX, 'spring end at node %s, supported %r' % (n.name, n.support_DX))


def split_(case, rec):
    _, s, moves = case
    r = built(s)
    q, names = split(r, moves)
    h = canon(q)
    m = ops.build(h)
    rec.history = h + [['merge']]
    els = {(g, k): e for g in ('members', 'springs', 'quads', 'plates') for k, e in getattr(m, g).items()}
    ops.apply_real(m, ['merge'])
    rec.step()
    rec.state((s, repr(moves)))
    key = 'split:%s:%s' % (s, '+'.join('%s.%d.%d.%d' % tuple(x) for x in moves))
    tidy(rec, key, m)
    nm = {n: names.get(n, n) for n in r.nodes}
    rec.true(key + ':nodes', set(m.nodes) == set(nm.values()), 'nodes after merging %s, expected %s' % (sorted(m.nodes), sorted(nm.values())))
    rec.true(key + ':elements', els == {(g, k): e for g in ('members', 'springs', 'quads', 'plates') for k, e in getattr(m, g).items()},
             'merging changed the element registries')
    for x in ('members', 'springs'):
        for k, d in getattr(r, x).items():
            e = getattr(m, x)[k]
            rec.true(key + ':ends', (e.i_node.name, e.j_node.name) == (nm[d['i']], nm[d['j']]), '%s %s runs from %s to %s' % (x, k, e.i_node.name, e.j_node.name))
    fresh = fresh_model(s, r)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    for c in r.combos:
        want, got = fresh[c], {}
        inv = {v: k for k, v in nm.items()}
        for lab, x in results(m, c):
            g, n = lab.split(':')
            got[g + ':' + (inv.get(n, n) if g in ('disp', 'reac') else n)] = x
        big = {}
        for lab, x in want.items():
            big[lab.split(':')[0]] = max([big.get(lab.split(':')[0], 1e-3)] + list(np.abs(x)))
        for lab in want:
            rec.close('%s:%s:%s' % (key, c, lab), got.get(lab, np.nan), want[lab], 1e-6, big[lab.split(':')[0]],
                      'combo %s %s after merging versus shared nodes' % (c, lab))
        rec.outcome((key, c))


FRESH = {}


def fresh_model(s, r):
    if s not in FRESH:
        f = ops.build(canon(r))
        ops.apply_real(f, ['analyze', {}])
        FRESH[s] = {c: dict(results(f, c)) for c in r.combos}
    return FRESH[s]


def mesh(case, rec):
    """two generated meshes that share an edge"""
    _, k, order = case
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    a = dict(origin=[0, 0, 0], start_node='N1', start_element='E1')
    b = dict(origin=[4, 0, 0], start_node='N101', start_element='E101')
    if order:
        a, b = b, a
    for n, kw in (('A', a), ('B', b)):
        m.add_rectangle_mesh(n, 2., 4., 6., .5, 'C', element_type=k, **kw)
        m.meshes[n].generate()
    n0 = len(m.nodes)
    m.merge_duplicate_nodes()
    rec.history = [case]
    rec.step()
    key = 'mesh:%s:%d' % (k, order)
    tidy(rec, key, m)
    rec.true(key + ':count', n0 - len(m.nodes) == 4, '%d nodes merged along the common edge, expected 4' % (n0 - len(m.nodes)))
    for w in m.meshes.values():
        rec.true(key + ':registry', all(m.nodes.get(x) is y for x, y in w.nodes.items()), 'mesh node registry out of step with the model')
        rec.true(key + ':corners', {id(getattr(e, c + '_node')) for e in w.elements.values() for c in 'ijmn'} == {id(x) for x in w.nodes.values()},
                 'mesh nodes are not the corners of its elements')


def run(case, rec):
    {'split': split_, 'near': near, 'cluster': cluster, 'far': far, 'mesh': mesh}[case[0]](case, rec)
    rec.trace()
