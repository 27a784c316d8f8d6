"""Surface pressures."""
import itertools

import numpy as np

from .. import elem, ops, shell

ID = 'P20'
TITLE = 'Surface pressure reaches the structure completely, in the right direction'
RULE = ('element kind x shape x thickness x position in space x starting corner x direction, each with three pressure cases (one element carrying several pressures) under factor '
        'vectors as combinations (all of {0, 1, -1, 1.4}^3 for one position); pairs of adjoining elements of every kind and start; rectangle, annulus, frustrum and cylinder meshes '
        'in every plane; panels on three point supports')
ASSUMPTIONS = ['elements are plane and convex']
ALL = [f for f in itertools.product((0, 1., -1., 1.4), repeat=3)]
FEW = [(1., 0, 0), (0, 1., 0), (0, 0, -1.), (1., 1.4, 1.4), (0, 0, 0)]
PRESS = [(2.5, 'A'), (-.7, 'B'), (1.1, 'A'), (.3, 'C'), (4., 'unused')]


def combos(h, facts=FEW):
    for k, f in enumerate(facts):
        h.append(['combo', 'F%d' % k, {c: v for c, v in zip('ABC', f) if v}])
    return h


def intensity(f):
    return sum(p*dict(zip('ABC', f)).get(c, 0) for p, c in PRESS)


def cases(tier):
    out = []
    for kind, shapes in (('plate', elem.SHAPES), ('quad', {**elem.SHAPES, **elem.SKEW})):
        for s, fr, st, rv in itertools.product(shapes, elem.FRAMES, range(4), (0, 1)):
            if tier == 'quick' and st and rv and fr not in ('XY', 'tilt'):
                continue
            out.append(['one', kind, s, fr, st, rv])
    for kinds in itertools.product(('plate', 'quad'), repeat=2):
        for st, rv in itertools.product(range(4), (0, 1)):
            for fr in (('XY', 'tilt') if tier == 'quick' else elem.FRAMES):
                out.append(['pair', kinds, st, rv, fr])
    for kind, fr, st in itertools.product(('plate', 'quad'), elem.FRAMES, range(4)):
        out.append(['panel', kind, fr, st])
    for typ, plane, op in itertools.product(('Quad', 'Rect'), ('XY', 'YZ', 'XZ'), (0, 1)):
        out.append(['mesh', typ, plane, op])
    for typ, ax in itertools.product(('annulus', 'frustrum', 'cylinder', 'cylinderRect'), 'XYZ'):
        out.append(['curved', typ, ax])
    return out


def area(P):
    return .5*np.cross(P[2] - P[0], P[3] - P[1])


def centroid(P):
    a = [np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])), np.linalg.norm(np.cross(P[2] - P[0], P[3] - P[0]))]
    return (a[0]*(P[0] + P[1] + P[2]) + a[1]*(P[0] + P[2] + P[3]))/3/sum(a)


def resultant(m, combo):
    F, M = np.zeros(3), np.zeros(3)
    for n, r in ops.reac(m, combo).items():
        nd = m.nodes[n]
        F += r[:3]
        M += r[3:] + np.cross([nd.X, nd.Y, nd.Z], r[:3])
    return F, M


def check(rec, key, m, loaded, moments=True, facts=FEW):
    """loaded: corner arrays of the loaded elements"""
    vec = [(area(P), centroid(P)) for P in loaded]
    A = sum(np.linalg.norm(a) for a, _ in vec)
    arm = max(np.abs(P).max() for P in loaded) + 1
    for k, f in enumerate(facts):
        p = intensity(f)
        F, M = resultant(m, 'F%d' % k)
        s = max(abs(p)*A, 1e-3*A)
        rec.close(key + ':force', F, -p*sum(a for a, _ in vec), 1e-6, s, 'reaction sum under factors %s' % (f,))
        if moments:
            rec.close(key + ':moment', M, -p*sum(np.cross(c, a) for a, c in vec), 1e-6, s*arm, 'reaction moment about the origin under factors %s' % (f,))
        rec.trace()


def press(h, kind, name):
    for p, c in PRESS:
        h.append(['qpress' if kind == 'quad' else 'ppress', name, p, c])


def run(case, rec):
    what = case[0]
    if what == 'one':
        _, kind, s, fr, st, rv = case
        P = elem.place({**elem.SHAPES, **elem.SKEW}[s], fr, st, rv)
        h = elem.build(kind, P, .3, .3, (1., 1.))
        press(h, kind, 'E')
        facts = ALL if fr == 'tilt' and st == 0 else FEW
        combos(h, facts)
        h.append(['analyze', {}])
        rec.history = h
        m = ops.build(h)
        rec.step(len(h))
        rec.state(case)
        check(rec, 'one', m, [P], facts=facts)
        q = shell.global_q(kind, P, 1.0)
        for k, f in enumerate(facts):
            r = ops.reac(m, 'F%d' % k)
            rec.close('nodal', np.concatenate([r['N%d' % i] for i in range(4)]), -intensity(f)*q, 1e-6, np.abs(q).max(), 'reactions under factors %s' % (f,))
            e = (m.quads if kind == 'quad' else m.plates)['E']
            rec.close('local', np.array(e.f('F%d' % k)).ravel().reshape(8, 3), (shell.T24(shell.axes(P)) @ (-intensity(f)*q)).reshape(8, 3), 1e-6, np.abs(q).max(), 'local end forces under factors %s' % (f,))
        rec.outcome(tuple(np.round(q, 6)))
    elif what == 'pair':
        _, kinds, st, rv, fr = case
        A = elem.place([(0, 0), (3, 0), (3, 2), (0, 2)], fr)
        B = elem.place([(3, 0), (4.5, 0), (4.5, 2), (3, 2)], fr, st, rv)
        names = {}
        h = []
        for P in (A, B):
            for p in P:
                k = tuple(np.round(p, 9))
                if k not in names:
                    names[k] = 'N%d' % len(names)
                    h.append(['node', names[k], *map(float, p)])
                    h.append(['support', names[k], [True]*6])
        h.append(['mat', 'C', 3600., 1500., .2, .1])
        for i, (P, kd) in enumerate(zip((A, B), kinds)):
            h.append([kd, 'E%d' % i, *[names[tuple(np.round(p, 9))] for p in P], .3, 'C'])
            press(h, kd, 'E%d' % i)
        combos(h)
        h.append(['analyze', {}])
        rec.history = h
        m = ops.build(h)
        rec.step(len(h))
        rec.state(case)
        check(rec, 'pair', m, [A, B])
    elif what == 'panel':
        _, kind, fr, st = case
        P = elem.place([(0, 0), (4, 0), (4, 1.5), (0, 1.5)], fr, st)
        h = [['node', 'N%d' % i, *map(float, p)] for i, p in enumerate(P)] + [['mat', 'C', 3600., 1500., .2, .1], [kind, 'E', 'N0', 'N1', 'N2', 'N3', .3, 'C']]
        h += [['support', 'N%d' % i, [True]*3 + [False]*3] for i in range(3)]
        press(h, kind, 'E')
        combos(h)
        h.append(['analyze', {}])
        rec.history = h
        m = ops.build(h)
        rec.step(len(h))
        rec.state(case)
        check(rec, 'panel', m, [P], moments=False)
    else:
        typ = case[1]
        h = [['mesh'] + case]
        rec.history = h
        m = ops.new_model()
        m.add_material('C', 3600., 1500., .2, .1)
        if what == 'mesh':
            m.add_rectangle_mesh('M', 1., 4., 3., .3, 'C', plane=case[2], origin=[1., -2., 5.], element_type=typ)
            if case[3]:
                m.meshes['M'].add_rect_opening('O', 1., 1., 1., 1.)
        elif typ == 'annulus':
            m.add_annulus_mesh('M', 1., 3., 1., .3, 'C', origin=[1., -2., 5.], axis=case[2])
        elif typ == 'frustrum':
            m.add_frustrum_mesh('M', 1., 3., 1., 1.5, .3, 'C', origin=[1., -2., 5.], axis=case[2])
        else:
            m.add_cylinder_mesh('M', 1., 3., 3., .3, 'C', origin=[1., -2., 5.], axis=case[2], element_type='Rect' if typ.endswith('Rect') else 'Quad')
        m.meshes['M'].generate()
        loaded = []
        for n, e in list(m.quads.items()) + list(m.plates.items()):
            for p, c in PRESS:
                (m.add_quad_surface_pressure if n in m.quads else m.add_plate_surface_pressure)(n, p, c)
            loaded.append(np.array([(x.X, x.Y, x.Z) for x in (e.i_node, e.j_node, e.m_node, e.n_node)]))
        for n in m.nodes:
            m.def_support(n, True, True, True, True, True, True)
        for o in combos([]):
            ops.apply_real(m, o)
        ops.apply_real(m, ['analyze', {}])
        rec.step(len(loaded)*5)
        rec.state(case)
        check(rec, what, m, loaded)
        if what == 'mesh':
            n = {'XY': (0, 0, 1), 'YZ': (1, 0, 0), 'XZ': (0, -1, 0)}[case[2]]
            tot = sum(area(P) for P in loaded)
            rec.close('area', np.linalg.norm(tot), 12. - case[3], 1e-9, msg='loaded area of the mesh')
        rec.outcome(len(loaded))
