"""Mesh result envelopes equal the extremes over their elements."""
import itertools

import numpy as np

from .. import ops

ID = 'P27'
TITLE = 'Mesh result envelopes equal the extremes over their elements'
RULE = ('every mesh kind and element type x every element loaded alone with either sign and in-plane node loads (so that every element and corner '
        'becomes the extreme one), one combination each x every result direction x every single combination and all of them; '
        'two meshes in one model, user elements beside a mesh, deleted elements, merged nodes, renamed models, repeated analyses')
ASSUMPTIONS = ['envelopes are taken over the corners and the centre of every element, as documented', 'all combinations were analysed when none is named']
SIGN = (1, -1)
MESHES = {
    'rectQ': [('rect', dict(mesh_size=2., width=6., height=4., element_type='Quad', plane='XY'))],
    'rectR': [('rect', dict(mesh_size=2., width=6., height=4., element_type='Rect', plane='XY'))],
    'rectR-YZ': [('rect', dict(mesh_size=2., width=4., height=5., element_type='Rect', plane='YZ', origin=[1., 2., 3.], x_control=[1.3]))],
    'rectQ-XZ': [('rect', dict(mesh_size=2., width=4., height=3., element_type='Quad', plane='XZ', origin=[1., 2., 3.], y_control=[.7]))],
    'openQ': [('rect', dict(mesh_size=2., width=6., height=6., element_type='Quad', opening=(2., 2., 2., 2.)))],
    'openR': [('rect', dict(mesh_size=3., width=6., height=5., element_type='Rect', opening=(1., 2., 2., 1.5)))],
    'mods': [('rect', dict(mesh_size=2., width=4., height=4., element_type='Quad', kx_mod=.5, ky_mod=1.4))],
    'annulus': [('annulus', dict(mesh_size=2.5, outer_radius=4., inner_radius=2.))],
    'frustrum': [('frustrum', dict(mesh_size=2.5, large_radius=4., small_radius=2., height=3.))],
    'cylQ': [('cyl', dict(mesh_size=2., radius=2., height=3., num_elements=5, element_type='Quad'))],
    'cylR': [('cyl', dict(mesh_size=2., radius=2., height=3., num_elements=4, element_type='Rect'))],
    'strip': [('rect', dict(mesh_size=2., width=6., height=1.1, element_type='Rect'))],
    'stripQ': [('rect', dict(mesh_size=2., width=4., height=1.2, element_type='Quad'))],
    'two': [('rect', dict(mesh_size=2., width=4., height=4., element_type='Quad')),
            ('rect', dict(mesh_size=2., width=4., height=4., element_type='Rect', origin=[4., 0, 0]))],
    'twoQ': [('rect', dict(mesh_size=2., width=4., height=2., element_type='Quad', origin=[0, -2., 0])),
             ('rect', dict(mesh_size=2., width=4., height=4., element_type='Quad'))],
}
EDITS = ('none', 'again', 'merge', 'rename', 'extra', 'delete', 'reload', 'tiponly', 'tipneg')


def cases(tier):
    th = tier != 'quick'
    out = []
    for k in MESHES:
        for e in EDITS if th or k in ('two', 'openQ', 'rectR') else ('none', 'tiponly', 'tipneg'):
            for side in range(4) if th or e in ('none', 'tiponly', 'tipneg') and len(MESHES[k]) == 1 else (0,):
                out.append([k, e, side])
    return out


def build(kind):
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    for i, (k, a) in enumerate(MESHES[kind]):
        a = dict(a)
        op = a.pop('opening', None)
        f = dict(rect=m.add_rectangle_mesh, annulus=m.add_annulus_mesh, frustrum=m.add_frustrum_mesh, cyl=m.add_cylinder_mesh)[k]
        name = f('M%d' % i, a.pop('mesh_size'), *([a.pop(x) for x in {'rect': ('width', 'height'), 'annulus': ('outer_radius', 'inner_radius'),
                                                                       'frustrum': ('large_radius', 'small_radius', 'height'), 'cyl': ('radius', 'height')}[k]]), .4, 'C', **a)
        if op:
            m.meshes['M%d' % i].add_rect_opening('O', *op)
        m.meshes['M%d' % i].generate()
    return m


def elements(m):
    return [('quad', n) for n in m.quads] + [('plate', n) for n in m.plates]


def load(m, side):
    """supports along one edge of the nodes, every element loaded in a combination of its own"""
    for nd in m.nodes.values():
        nd.NodeLoads = []
    names = list(m.nodes)
    for n in names:
        m.def_support(n, False, False, False, False, False, False)
    for mesh in list(m.meshes.values()) or [None]:
        ns = list(mesh.nodes.values())
        P = np.array([(x.X, x.Y, x.Z) for x in ns])
        # the plane in which the mesh starts is held
        a = int(np.argmin(np.ptp(P, axis=0))) if np.ptp(P, axis=0).min() < 1e-9 else None
        axes = [k for k in range(3) if k != a]
        for axis in axes[side//2:] + axes:
            v = P[:, axis]*(1, -1)[side % 2]
            low = [x for x, p in zip(ns, v) if p < v.min() + 1e-6]
            if len(low) < 3 and a is None or len(low) < 2:
                low = [x for x, p in zip(ns, v) if p < v.min() + .3*np.ptp(v)]
            if len(low) >= 3 or len(low) == 2 and a is not None:
                break
        for x in low:
            if x.name in m.nodes:
                m.def_support(x.name, True, True, True, True, True, True)
    m.load_combos.clear()
    for i, (k, n) in enumerate(elements(m)):
        f = m.add_quad_surface_pressure if k == 'quad' else m.add_plate_surface_pressure
        f(n, .05*(1 + .1*i)*SIGN[i % 2], 'P%d' % i)
        el = (m.quads if k == 'quad' else m.plates)[n]
        m.add_node_load(el.m_node.name, ('FX', 'FY', 'FZ')[i % 3], .3*SIGN[i//2 % 2], 'P%d' % i)
        m.add_load_combo('C%d' % i, {'P%d' % i: 1.0}, ['odd'] if i % 2 else ['even'])
    m.add_load_combo('zero', {})
    # bending and shear of one sign everywhere, so that the other extreme is the unloaded combination
    for mesh in m.meshes.values():
        for x in [x for x, p in zip(mesh.nodes.values(), list(v)) if p > v.max() - 1e-6] if mesh is list(m.meshes.values())[-1] else []:
            m.add_node_load(x.name, 'FZ', .2, 'T')
    m.add_load_combo('tip', {'T': 1.0})
    m.add_load_combo('up', {'P%d' % i: (1.0, -1.0)[i % 2]*(1 + .3*i) for i in range(len(elements(m)))})


def own(el, combo):
    """results of an element at its corners and centre: {direction: values}"""
    if el.type == 'Rect':
        P = [np.array((x.X, x.Y, x.Z)) for x in (el.i_node, el.j_node, el.m_node, el.n_node)]
        w, h = np.linalg.norm(P[1] - P[0]), np.linalg.norm(P[3] - P[0])
        pts = [(0, 0), (w, 0), (w, h), (0, h), (w/2, h/2)]
    else:
        pts = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)]
    out = {}
    for loc in (True, False):
        Q = np.array([np.ravel(el.shear(a, b, loc, combo)) for a, b in pts], float)
        M = np.array([np.ravel(el.moment(a, b, loc, combo)) for a, b in pts], float)
        for i, d in enumerate(('Qx', 'Qy') if loc else ('QX', 'QY')):
            out[d] = Q[:, i]
        for i, d in enumerate(('Mx', 'My', 'Mxy') if loc else ('MX', 'MY', 'MZ')):
            out[d] = M[:, i]
    return out


def check(rec, key, m, combos, deep):
    for mn, mesh in m.meshes.items():
        els = {n: e for n, e in mesh.elements.items()}
        res = {(n, c): own(e, c) for n, e in els.items() for c in combos}
        for c in list(combos) + [None]:
            if not deep and c not in (None, combos[0], 'up', 'tip', 'zero', combos[len(combos)//2]):
                continue
            for d in ('Qx', 'Qy', 'Mx', 'My', 'Mxy') + (('QX', 'QY', 'MX', 'MY', 'MZ') if c in (None, 'up') else ()):
                v = [res[n, k][d] for n in els for k in (combos if c is None else [c])]
                hi, lo = max(x.max() for x in v), min(x.min() for x in v)
                sc = max(abs(hi), abs(lo), 1e-9)
                kind = 'shear' if d[0] == 'Q' else 'moment'
                a = () if c is None else (c,)
                got = float(getattr(mesh, 'max_' + kind)(d, *a)), float(getattr(mesh, 'min_' + kind)(d, *a))
                rec.close('%s:%s:%s:%s:max' % (key, mn, d, c), got[0], hi, 1e-9, sc, 'mesh %s max_%s(%s) of %s' % (mn, kind, d, c or 'all combinations'))
                rec.close('%s:%s:%s:%s:min' % (key, mn, d, c), got[1], lo, 1e-9, sc, 'mesh %s min_%s(%s) of %s' % (mn, kind, d, c or 'all combinations'))
                rec.trace()
                who = max((x.max(), n) for (n, k), r in res.items() for x in (r[d],) if c is None or k == c)[1]
                rec.outcome((key, mn, d, c, who))


def run(case, rec):
    kind, edit, side = case
    rec.history = case
    m = build(kind)
    key = '%s:%s:%d' % (kind, edit, side)
    if edit == 'merge':
        m.merge_duplicate_nodes()
    elif edit == 'rename':
        m.rename()
    elif edit == 'extra':
        # an element of the user with much larger results is not part of any mesh
        for n, x, y in (('U1', -50, 0), ('U2', -40, 0), ('U3', -40, 10), ('U4', -50, 10)):
            m.add_node(n, x, y, 20)
        m.add_quad('UQ', 'U1', 'U2', 'U3', 'U4', .1, 'C')
    elif edit == 'delete':
        n = list(m.meshes['M0'].nodes)[-1]
        m.delete_node(n)
    load(m, side)
    if edit == 'extra':
        for n in ('U1', 'U2'):
            m.def_support(n, True, True, True, True, True, True)
    if edit in ('tiponly', 'tipneg'):
        # the only other combination has no loads: its zeros are the extremes of results of one sign
        for c in list(m.load_combos):
            if c not in ('tip', 'zero'):
                del m.load_combos[c]
        m.load_combos['tip'].factors['T'] = 1.0 if edit == 'tiponly' else -1.0
    m2 = m
    for i in range(2 if edit in ('again', 'reload') else 1):
        if i and edit == 'reload':
            m2.delete_loads()
            load(m2, side)
            m2.load_combos['up'].factors['P0'] = 9.0
        ops.apply_real(m2, [('analyze_linear', 'analyze')[i], {}])
        rec.step()
        rec.state((case, i))
        for c in m2.load_combos:
            rec.state((case, i, c))
            rec.step()
        check(rec, '%s:%d' % (key, i), m2, list(m2.load_combos), edit == 'none')
