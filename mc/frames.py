"""Small structures used as starting points of the explored histories.

Each entry: name -> dict(base=[ops], loads=[load ops without case], kind)
Every base structure is stable and linear; variants (supports, releases, extra nodes, one-way flags)
are enumerated by the property modules.
"""
from .common import MAT, MAT2, PROPS, PROPS2, ORIENT, member, sup, rel

P1 = ['S', 60.0, 150.0, 25.0, 10.0]
P2 = ['W', 900.0, 400.0, 550.0, 60.0]


def n(name, x, y, z):
    return ['node', name, x, y, z]


def single(u, L=10.0, aux=None, o=(1, 2, 3)):
    h = [MAT, n('I', *o), n('J', *(o[k] + L*u[k] for k in range(3)))]
    if aux:
        h.append(['aux', 'A'] + list(aux))
    h.append(member('M', 'I', 'J', **({'aux_node': 'A'} if aux else {})))
    return h


def portal():
    return dict(
        base=[MAT, n('N1', 0, 0, 0), n('N2', 0, 12, 0), n('N3', 15, 12, 0), n('N4', 15, 0, 0),
              member('M1', 'N1', 'N2'), member('M2', 'N2', 'N3', ['S', 70., 200., 30., 12.]), member('M3', 'N4', 'N3'),
              sup('N1', '111111'), sup('N4', '111111')],
        loads=[['nload', 'N2', 'FX', 3.0], ['nload', 'N3', 'MZ', -20.0], ['nload', 'N2', 'FZ', 1.5],
               ['dload', 'M2', 'FY', -0.3, -0.1, 2.0, 11.0], ['ptload', 'M1', 'Fy', 2.0, 5.0],
               ['ptload', 'M2', 'Fz', 1.0, 7.5], ['dload', 'M3', 'Fx', 0.2, 0.2, None, None],
               ['ptload', 'M3', 'MX', 4.0, 3.0], ['nload', 'N1', 'FX', 2.0]])


def space():
    """three legs of arbitrary orientation meeting at a joint, with a reference (aux) node"""
    return dict(
        base=[MAT, MAT2, n('T', 0, 10, 0), n('A1', 8, 0, 1), n('A2', -5, 0, 6), n('A3', -2, 0, -7), n('E', 3, 14, 4),
              ['aux', 'X1', 3.0, 20.0, -9.0],
              member('L1', 'A1', 'T'), member('L2', 'T', 'A2', P2), member('L3', 'A3', 'T', aux_node='X1'),
              member('L4', 'T', 'E'), sup('A1', '111111'), sup('A2', '111111'), sup('A3', '111111')],
        loads=[['nload', 'T', 'FX', 3.0], ['nload', 'T', 'FY', -8.0], ['nload', 'E', 'FZ', 2.0], ['nload', 'E', 'MY', 5.0],
               ['dload', 'L1', 'FY', -0.2, -0.4, None, None], ['dload', 'L2', 'Fz', 0.3, 0.0, 1.0, 6.0],
               ['ptload', 'L3', 'Fx', 2.0, 4.0], ['ptload', 'L3', 'My', 7.0, 2.5], ['ptload', 'L4', 'MZ', 3.0, 1.0],
               ['ptload', 'L2', 'FX', 2.0, 3.0], ['dload', 'L4', 'FX', .1, .5, 0.5, 4.0]])


def cont():
    """continuous physical member over interior supports with a framed-in branch"""
    return dict(
        base=[MAT, n('B', 20, 0, 0), n('A', 0, 0, 0), n('C', 8, 0, 0), n('D', 14, 0, 0), n('F', 14, 5, 0), n('G', 3, 0, 0),
              member('BM', 'A', 'B'), member('CL', 'F', 'D'),
              sup('A', '111100'), sup('B', '011000'), sup('C', '011000'), sup('F', '111111')],
        loads=[['dload', 'BM', 'FY', -1.0, -1.0, None, None], ['dload', 'BM', 'Fy', -0.2, -1.2, 2.0, 17.0],
               ['ptload', 'BM', 'Fz', 3.0, 3.0], ['ptload', 'BM', 'FY', -3.0, 14.0], ['ptload', 'BM', 'Mz', 9.0, 8.0],
               ['dload', 'BM', 'Fz', 0.5, 0.1, 9.0, 20.0], ['nload', 'D', 'MX', 6.0], ['ptload', 'CL', 'Fy', 1.0, 2.0],
               ['ptload', 'BM', 'Fx', 4.0, 11.0], ['ptload', 'BM', 'Mx', 4.0, 11.0]])


def braced():
    """portal with released (pinned) X braces"""
    s = portal()
    s['base'] = s['base'] + [member('B1', 'N1', 'N3'), member('B2', 'N2', 'N4'),
                             rel('B1', '000011000011'), rel('B2', '000011000011')]
    return s


def springs():
    """beam carried by spring elements and support springs"""
    return dict(
        base=[MAT, n('A', 0, 0, 0), n('B', 6, 0, 0), n('C', 13, 0, 0), n('G1', 6, -4, 0), n('G2', 13, -3, 2),
              member('M1', 'A', 'B'), member('M2', 'B', 'C'),
              ['spring', 'S1', 'B', 'G1', 40.0], ['spring', 'S2', 'G2', 'C', 25.0],
              sup('A', '111100'), sup('G1', '111111'), sup('G2', '111111'),
              ['sspring', 'B', 'DY', 12.0], ['sspring', 'C', 'DZ', 9.0], ['sspring', 'B', 'RY', 300.0],
              ['sspring', 'C', 'DX', 5.0], ['sspring', 'C', 'RX', 55.0]],
        loads=[['nload', 'B', 'FY', -5.0], ['nload', 'C', 'FZ', 3.0], ['nload', 'B', 'FX', 4.0], ['nload', 'B', 'MY', 8.0],
               ['dload', 'M2', 'Fy', -1.0, 0.0, None, None], ['nload', 'B', 'MX', 3.0], ['ptload', 'M1', 'Mz', 10., 2.0]])


def settle():
    """support settlement: enforced displacements at supported freedoms"""
    s = portal()
    s['base'] = s['base'] + [['disp', 'N4', 'DY', -0.25], ['disp', 'N4', 'DX', 0.1], ['disp', 'N1', 'RZ', 0.002],
                             ['disp', 'N1', 'DZ', -0.03], ['disp', 'N4', 'RX', 0.001]]
    return s


SHELLM = ['mat', 'C', 3600.0, 1500.0, 0.2, 0.0001]


def quadpatch(kind='quad', plane='XY'):
    """2x2 element patch (distorted for quads) on corner supports, in a coordinate plane or skewed"""
    xs = [[0, 0], [4, 0], [9, 0], [0, 3], [4.5, 3.4], [9, 3], [0, 7], [4, 7], [9, 7]]
    if kind == 'plate':
        xs = [[0, 0], [4, 0], [9, 0], [0, 3], [4, 3], [9, 3], [0, 7], [4, 7], [9, 7]]
    e = {'XY': lambda a, b: (a, b, 0), 'YZ': lambda a, b: (1, a, b), 'XZ': lambda a, b: (b, 2, a),
         'SK': lambda a, b: (.8*a, .6*a + 0*b, b) if False else (.8*a - .36*b, .6*a + .48*b, .8*b)}[plane]
    h = [SHELLM] + [n('P%d' % i, *e(*p)) for i, p in enumerate(xs)]
    q = [(0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6), (4, 5, 8, 7)]
    for i, c in enumerate(q):
        h.append([kind, 'E%d' % i] + ['P%d' % k for k in c] + [0.5 + .1*i, 'C'])
    h += [sup('P0', '111111'), sup('P2', '111000'), sup('P6', '111000'), sup('P8', '111100')]
    pr = 'qpress' if kind == 'quad' else 'ppress'
    return dict(base=h, loads=[[pr, 'E0', .02], [pr, 'E3', -.03], ['nload', 'P4', 'FX', 2.0], ['nload', 'P5', 'FY', 1.0],
                               ['nload', 'P4', 'FZ', -1.0], ['nload', 'P7', 'MX', 3.0], ['nload', 'P1', 'MZ', 1.0],
                               ['nload', 'P0', 'FY', 1.0]])


def mixed():
    """plates, quads, a beam and a spring sharing nodes"""
    s = quadpatch('quad', 'XY')
    h = s['base'] + [MAT, n('T', 9, 3, 6), n('U', 4, 7, 5), member('C1', 'T', 'P5'), ['spring', 'SP', 'U', 'P7', 30.0],
                     sup('T', '111111'), sup('U', '111111'), n('R0', 9, -4, 0), n('R1', 4, -4, 0),
                     ['plate', 'R', 'R1', 'R0', 'P2', 'P1', .4, 'C'], sup('R1', '111000'), ['sspring', 'R0', 'DZ', 8.0]]
    return dict(base=h, loads=s['loads'] + [['ppress', 'R', .05], ['dload', 'C1', 'FX', .1, .3, None, None],
                                            ['nload', 'R0', 'FZ', 1.0]])


ALL = {
    'portal': portal, 'space': space, 'cont': cont, 'braced': braced, 'springs': springs, 'settle': settle,
    'quad-XY': lambda: quadpatch('quad', 'XY'), 'quad-YZ': lambda: quadpatch('quad', 'YZ'),
    'quad-XZ': lambda: quadpatch('quad', 'XZ'), 'quad-SK': lambda: quadpatch('quad', 'SK'),
    'plate-XY': lambda: quadpatch('plate', 'XY'), 'plate-YZ': lambda: quadpatch('plate', 'YZ'),
    'plate-XZ': lambda: quadpatch('plate', 'XZ'), 'plate-SK': lambda: quadpatch('plate', 'SK'), 'mixed': mixed,
}
FRAMES = ('portal', 'space', 'cont', 'braced', 'springs', 'settle')


# -- deviation-bounded neighbourhoods -----------------------------------------------------------
def _state(base):
    from .ref import Ref
    r = Ref()
    for op in base:
        r.apply(op)
    return r


def deviations(name):
    """All single deviations of a base structure: list of (label, [ops]).

    support flags toggled one at a time at every node, every release flag of every member, a node placed on
    every member, a support spring in every free translational freedom and two rotational ones, an enforced
    displacement at every supported freedom, an extra spring/diagonal between the first non-adjacent nodes and
    another section for every member."""
    s = ALL[name]()
    r = _state(s['base'])
    out = []
    shells = bool(r.shells)
    for nn, nd in r.nodes.items():
        for d in range(6):
            if shells and d in (3, 4, 5) and nn not in ('P0', 'P4', 'T'):
                continue
            pat = ''.join('1' if x != (k == d) else '0' for k, x in enumerate(nd['sup']))
            out.append(('sup:%s:%s' % (nn, pat), [sup(nn, pat)]))
            if nd['sup'][d]:
                out.append(('disp:%s:%d' % (nn, d), [['disp', nn, ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')[d], (.13, -.21, .17, .003, -.002, .004)[d]]]))
            elif d < 5:
                out.append(('sspring:%s:%d' % (nn, d), [['sspring', nn, ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')[d], (7., 11., 13., 450., 350., 500.)[d]]]))
    for mn, m in r.members.items():
        for d in range(12):
            pat = ''.join('1' if x != (k == d) else '0' for k, x in enumerate(m['rel']))
            out.append(('rel:%s:%s' % (mn, pat), [rel(mn, pat)]))
        pi, pj = r.nodes[m['i']]['p'], r.nodes[m['j']]['p']
        p = [pi[k] + .37*(pj[k] - pi[k]) for k in range(3)]
        out.append(('node:%s' % mn, [n('V' + mn, *p)]))
        if not m['aux']:
            out.append(('aux:%s' % mn, [['del_member', mn], ['aux', 'AUX' + mn, 31., -17., 23.],
                                        ['member', mn, m['i'], m['j'], m['mat'], m['Iy'], m['Iz'], m['J'], m['A'], dict(aux_node='AUX' + mn)]]))
        out.append(('flip:%s' % mn, [['del_member', mn],
                                     ['member', mn, m['j'], m['i'], m['mat'], m['Iz'], m['Iy'], m['J']*1.5, m['A']*.8]]))
    names = list(r.nodes)
    linked = {frozenset((m['i'], m['j'])) for m in list(r.members.values()) + list(r.springs.values())}
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i+1:] if frozenset((a, b)) not in linked]
    for a, b in pairs[:3]:
        out.append(('xspring:%s-%s' % (a, b), [['spring', 'XS' + a + b, a, b, 17.0]]))
        if r.mats.get('S'):
            out.append(('xmember:%s-%s' % (a, b), [member('XM' + a + b, b, a, ['S', 3., 5., 2., 1.])]))
    return out


def variants(name, depth, skip=()):
    """every set of at most `depth` deviations: [[labels]] with the base first"""
    import itertools
    labels = [l for l, _ in deviations(name) if not l.startswith(tuple(skip) or ('\0',))]
    out = []
    for k in range(depth + 1):
        for c in itertools.combinations(labels, k):
            if k == 2 and c[0].rsplit(':', 1)[0] == c[1].rsplit(':', 1)[0] and c[0][:3] in ('sup', 'rel'):
                continue      # the second would only overwrite the first
            out.append(list(c))
    return out


def history(name, labels):
    """(ops without loads, loads)"""
    s = ALL[name]()
    dev = dict(deviations(name))
    # members that are replaced lose their loads and releases: keep deviations before the loads
    order = sorted(labels, key=lambda l: (l.split(':')[0] not in ('aux', 'flip'), l))
    h = list(s['base'])
    for l in order:
        h += dev[l]
    return h, s['loads']
