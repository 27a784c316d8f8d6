"""Invalid requests are refused and leave the model as it was."""
import numpy as np

from .. import ops
from .p06 import results

ID = 'P28'
TITLE = 'Invalid requests are refused and leave the model as it was'
RULE = ('every prefix of the construction of a model with every kind of object, and every later phase (analysed three ways, renamed, merged, deleted, '
        'loads deleted) x every modelling operation x every argument slot x every kind of invalid value; every refused mesh; every refused result '
        'request; every way of refusing an analysis x entry point x option x cure; after each the model is compared with the one before and with a '
        'model that never saw the request')
ASSUMPTIONS = ['values that the library documents as valid or does not document as invalid are not used',
               'a bad mesh may be refused when it is added, generated or analysed']

# ---------------------------------------------------------------- the model
SEC = [10., 150., 250., 250.]
BUILD = [
    ('add_material', 'MAT', 29000., 11000., .3, .0003),
    ('add_material', 'CON', 3600., 1500., .2, .0001),
    ('section', 'SEC', 8., 120., 300., 9.),
    ('add_node', 'N1', 0, 0, 0),
    ('add_node', 'N2', 0, 100., 0),
    ('add_node', 'N3', 150., 100., 0),
    ('add_node', 'N4', 150., 0, 20.),
    ('add_node', 'mid', 75., 100., 0),
    ('add_node', 'free', 75., 160., 10.),
    ('add_auxnode', 'AX', 0, 50., 40.),
    ('add_member', 'M1', 'N1', 'N2', 'MAT', *SEC[1:], SEC[0], 'AX'),
    ('add_member', 'M2', 'N2', 'N3', 'MAT', None, None, None, None, None, False, False, 'SEC'),
    ('add_member', 'M3', 'N3', 'N4', 'MAT', *SEC[1:], SEC[0]),
    ('add_member', 'M4', 'mid', 'free', 'MAT', *SEC[1:], SEC[0]),
    ('add_spring', 'S1', 'N2', 'N4', 40., False, False),
    ('add_node', 'P1', 200., 0, 0), ('add_node', 'P2', 240., 0, 0), ('add_node', 'P3', 240., 30., 0), ('add_node', 'P4', 200., 30., 0),
    ('add_node', 'P5', 290., 0, 0), ('add_node', 'P6', 280., 36., 0),
    ('add_plate', 'R1', 'P1', 'P2', 'P3', 'P4', 2., 'CON'),
    ('add_quad', 'Q1', 'P2', 'P5', 'P6', 'P3', 2., 'CON'),
    ('mesh', 'add_rectangle_mesh', 'MSH', 30., 60., 40., 1.5, 'CON', 1., 1., [400., 0, 0], 'XY', None, None, 'N501', 'Q501', 'Quad'),
    ('def_support', 'N1', True, True, True, True, True, True),
    ('def_support', 'N4', True, True, True, False, False, False),
    ('def_support', 'P1', True, True, True, True, True, True),
    ('def_support', 'P4', True, True, True, True, True, True),
    ('def_support', 'N501', True, True, True, True, True, True),
    ('def_support', 'N504', True, True, True, True, True, True),
    ('def_support_spring', 'N3', 'DZ', 5., None),
    ('def_node_disp', 'N4', 'DY', -.2),
    ('def_releases', 'M3', False, False, False, False, True, True),
    ('add_load_combo', 'C1', {'D': 1.2, 'L': 1.6}, ['strength']),
    ('add_load_combo', 'C2', {'D': 1.}),
    ('add_node_load', 'free', 'FX', 2., 'D'),
    ('add_node_load', 'N3', 'MZ', 12., 'L'),
    ('add_member_pt_load', 'M2', 'FY', -3., 40., 'L'),
    ('add_member_dist_load', 'M1', 'Fz', .02, .05, 10., 70., 'D'),
    ('add_member_dist_load', 'M4', 'FX', .01, .03, None, None, 'L'),
    ('add_member_self_weight', 'FY', -1., 'D'),
    ('add_plate_surface_pressure', 'R1', .002, 'D'),
    ('add_quad_surface_pressure', 'Q1', -.003, 'L'),
    ('add_quad_surface_pressure', 'Q501', .004, 'L'),
    ('add_node_load', 'N506', 'FZ', 1., 'D'),
]


def call(m, op):
    k, *a = op
    if k == 'section':
        return ops.apply_real(m, ['sec', *a])
    if k == 'mesh':
        f, n, *r = a
        getattr(m, f)(n, *r)
        return m.meshes[n].generate()
    with ops.quiet():
        return getattr(m, k)(*a)


# ---------------------------------------------------------------- invalid values
MISSING = {
    'node': ['nope', 'n1', 'N1 ', '', None, 1, 'AX', 'M1', 'MSH', 'MAT'],
    'aux': ['nope', 'ax', '', 'N1', 'M1', 0],
    'member': ['nope', 'm1', '', None, 'N1', 'S1', 'R1', 'Q1', 'M1a', 0],
    'spring': ['nope', 's1', '', None, 'N1', 'M1'],
    'plate': ['nope', 'r1', '', None, 'Q1', 'M1', 'MSH'],
    'quad': ['nope', 'q1', '', None, 'R1', 'M1', 'MSH'],
    'mat': ['nope', 'mat', '', None, 'SEC', 'M1', 0],
    'sec': ['nope', 'sec', '', 'MAT', 0],
    'ndir': ['FA', 'Fx', 'fx', 'Mz', '', None, 'DX', 'RX', 'F', 'FXX', 'X', 0],
    'pdir': ['FA', 'fx', 'mz', '', None, 'DX', 'Rx', 'F', 'FxFx', 'y', 1],
    'ddir': ['FA', 'fx', 'Mx', 'My', 'MZ', '', None, 'DX', 'F', 'y', 1],
    'dof': ['FX', 'dx', 'Dx', 'D', '', None, 'MX', 'DXY', 0],
    'sgn': ['x', 'up', '', '+-', 0, True, 1],
}
G4 = ['P1', 'P2', 'P3', 'P4']
# operation, valid arguments, {argument: kind of name}
REQ = [
    ('add_node', ['N1', 9., 9., 9.], {0: 'dup:nodes'}),
    ('add_auxnode', ['AX', 9., 9., 9.], {0: 'dup:aux_nodes'}),
    ('add_material', ['MAT', 1., 1., .1, 1.], {0: 'dup:materials'}),
    ('section', ['SEC', 1., 1., 1., 1.], {0: 'dup:sections'}),
    ('add_spring', ['new', 'N1', 'N3', 7., False, False], {1: 'node', 2: 'node'}),
    ('add_spring', [None, 'N1', 'N3', 7.], {1: 'node', 2: 'node'}),
    ('add_spring', ['S1', 'N1', 'N3', 7.], {0: 'dup:springs'}),
    ('add_member', ['new', 'N1', 'N3', 'MAT', 9., 9., 9., 9.], {1: 'node', 2: 'node', 3: 'mat'}),
    ('add_member', [None, 'N1', 'N3', 'MAT', 9., 9., 9., 9.], {1: 'node', 2: 'node', 3: 'mat'}),
    ('add_member', ['new', 'N1', 'N3', 'MAT', 9., 9., 9., 9., 'AX'], {1: 'node', 2: 'node', 3: 'mat', 8: 'aux'}),
    ('add_member', ['new', 'N1', 'N3', 'MAT', None, None, None, None, None, False, False, 'SEC'], {1: 'node', 3: 'mat', 11: 'sec'}),
    ('add_member', ['M1', 'N1', 'N3', 'MAT', 9., 9., 9., 9.], {0: 'dup:members'}),
    ('add_member', ['M2', 'N1', 'N3', 'MAT', None, None, None, None, None, False, False, 'SEC'], {0: 'dup:members'}),
    ('add_plate', ['new', *G4, 2., 'CON'], {1: 'node', 2: 'node', 3: 'node', 4: 'node', 6: 'mat'}),
    ('add_plate', [None, *G4, 2., 'CON', .5, .5], {1: 'node', 4: 'node', 6: 'mat'}),
    ('add_plate', ['R1', *G4, 2., 'CON'], {0: 'dup:plates'}),
    ('add_quad', ['new', *G4, 2., 'CON'], {1: 'node', 2: 'node', 3: 'node', 4: 'node', 6: 'mat'}),
    ('add_quad', ['', *G4, 2., 'CON', .5, .5], {1: 'node', 4: 'node', 6: 'mat'}),
    ('add_quad', ['Q1', *G4, 2., 'CON'], {0: 'dup:quads'}),
    ('add_rectangle_mesh', ['MSH', 1., 2., 2., .1, 'CON'], {0: 'dup:meshes'}),
    ('add_annulus_mesh', ['MSH', 1., 2., 1., .1, 'CON'], {0: 'dup:meshes'}),
    ('add_frustrum_mesh', ['MSH', 1., 2., 1., 1., .1, 'CON'], {0: 'dup:meshes'}),
    ('add_cylinder_mesh', ['MSH', 1., 2., 1., .1, 'CON'], {0: 'dup:meshes'}),
    ('def_support', ['N1', False, True, False], {0: 'node'}),
    ('def_support_spring', ['N1', 'DX', 3., '+'], {0: 'node', 1: 'dof', 3: 'sgn'}),
    ('def_support_spring', ['N3', 'DZ', 3.], {0: 'node', 1: 'dof'}),
    ('def_support_spring', ['N3', 'RY', 3., '-'], {0: 'node', 3: 'sgn'}),
    ('def_node_disp', ['N4', 'DY', 1.], {0: 'node', 1: 'dof'}),
    ('def_node_disp', ['N1', 'RX', 1.], {0: 'node', 1: 'dof'}),
    ('def_releases', ['M1', True, False, False, False, True], {0: 'member'}),
    ('add_node_load', ['N1', 'FX', 5.], {0: 'node', 1: 'ndir'}),
    ('add_node_load', ['N3', 'MZ', 5., 'D'], {0: 'node', 1: 'ndir'}),
    ('add_member_pt_load', ['M1', 'Fy', 5., 3.], {0: 'member', 1: 'pdir'}),
    ('add_member_pt_load', ['M2', 'MX', 5., 3., 'D'], {0: 'member', 1: 'pdir'}),
    ('add_member_dist_load', ['M1', 'Fy', 5., 3.], {0: 'member', 1: 'ddir'}),
    ('add_member_dist_load', ['M2', 'FZ', 5., 3., 4., 8., 'D'], {0: 'member', 1: 'ddir'}),
    ('add_member_dist_load', ['M2', 'FZ', 5., 3., None, 8., 'D'], {0: 'member', 1: 'ddir'}),
    ('add_member_self_weight', ['FY', -1.], {0: 'ddir*'}),
    ('add_plate_surface_pressure', ['R1', 5.], {0: 'plate'}),
    ('add_quad_surface_pressure', ['Q1', 5., 'D'], {0: 'quad'}),
    ('delete_node', ['N1'], {0: 'node'}),
    ('delete_auxnode', ['AX'], {0: 'aux'}),
    ('delete_spring', ['S1'], {0: 'spring'}),
    ('delete_member', ['M1'], {0: 'member'}),
]
KIND = dict(node='nodes', aux='aux_nodes', member='members', spring='springs', plate='plates', quad='quads', mat='materials', sec='sections')


def requests(m, th):
    """every operation with at least one invalid argument, in the present state of the model"""
    for k, a, slots in REQ:
        bad = {}
        for s, kind in slots.items():
            if kind[:3] == 'dup':
                bad[s] = [n for n in getattr(m, kind[4:]) if not str(n)[1:].isdigit() or len(str(n)) < 4][:None if th else 4]
            elif kind[-1] == '*':
                bad[s] = MISSING[kind[:-1]] if m.members else []
            elif kind in KIND:
                have = getattr(m, KIND[kind])
                # names that meant something once, or that an object of another kind has
                bad[s] = [v for v in MISSING[kind] + [a[s]] + GONE if not (isinstance(v, str) and v in have)]
                if kind == 'sec':
                    bad[s] = [v for v in bad[s] if v is not None]
            else:
                bad[s] = MISSING[kind]
        for s, vs in bad.items():
            for v in vs:
                b = list(a)
                b[s] = v
                yield [k, *b]
        # two invalid arguments at once
        ss = sorted(bad)
        for i, s in enumerate(ss):
            for t in ss[i + 1:]:
                for v in bad[s][:2]:
                    for w in bad[t][:2]:
                        b = list(a)
                        b[s], b[t] = v, w
                        yield [k, *b]


GONE = ['N3', 'mid', 'P6', 'M4', 'R1', 'Q501', 'N506', 'N1_copy']

MESHES = [
    ('add_rectangle_mesh', ['bad', 1., 2., 2., .1, 'nope']),
    ('add_rectangle_mesh', ['bad', 1., 2., 2., .1, 'CON', 1., 1., [0, 0, 0], 'ZZ']),
    ('add_rectangle_mesh', [None, 1., 2., 2., .1, 'CON', 1., 1., [0, 0, 0], 'xy']),
    ('add_rectangle_mesh', ['bad', 1., 2., 2., .1, 'CON', 1., 1., [0, 0, 0], 'XY', None, None, None, None, 'Tri']),
    ('add_rectangle_mesh', ['bad', 1., 2., 2., .1, 'CON', 1., 1., [0, 0, 0], 'XY', [1.], [1.], None, 'Q1', 'Plate']),
    ('add_rectangle_mesh', ['bad', 1., 2., 2., .1, 'nope', 1., 1., [0, 0, 0], 'XY', [1.], [1.], None, None, 'Rect']),
    ('add_annulus_mesh', ['bad', 1., 2., 1., .1, 'nope']),
    ('add_annulus_mesh', ['bad', 1., 2., 1., .1, 'CON', 1., 1., [0, 0, 0], 'W']),
    ('add_annulus_mesh', [None, .5, 2., 1., .1, 'CON', 1., 1., [0, 0, 0], 'y']),
    ('add_frustrum_mesh', ['bad', 1., 2., 1., 1., .1, 'nope']),
    ('add_frustrum_mesh', ['bad', 1., 2., 1., 1., .1, 'CON', 1., 1., [0, 0, 0], 'W']),
    ('add_cylinder_mesh', ['bad', 1., 2., 1., .1, 'nope']),
    ('add_cylinder_mesh', ['bad', 1., 2., 1., .1, 'CON', 1., 1., [0, 0, 0], 'W']),
    ('add_cylinder_mesh', ['bad', 1., 2., 1., .1, 'CON', 1., 1., [0, 0, 0], 'Y', None, None, 6, 'Tri']),
]

# phases after the construction
PHASES = {
    'built': [],
    'analyze': [('analyze',)],
    'linear': [('analyze_linear',)],
    'pdelta': [('analyze_PDelta',)],
    'dense': [('analyze', False, False, False, 30, False)],
    'rename': [('rename',)],
    'merge': [('add_node', 'N1_copy', 0, 0, 0), ('merge_duplicate_nodes',)],
    'delnode': [('analyze',), ('delete_node', 'mid')],
    'delnodes': [('delete_node', 'P6'), ('delete_node', 'N506')],
    'delmember': [('delete_member', 'M4'), ('delete_node', 'free')],
    'delspring': [('delete_spring', 'S1'), ('delete_auxnode', 'AX')],
    'delloads': [('analyze',), ('delete_loads',)],
    'edited': [('analyze',), ('add_node_load', 'N3', 'FZ', 1., 'D'), ('analyze_linear',)],
}
# nodes that the phase left without elements
LOOSE = {'delnode': ['free'], 'delnodes': ['P5', 'N503', 'N509']}
# what a refused analysis lacks, and how it is cured
REFUSED = {
    'nosupport': ([], [('def_support', n, False, False, False, False, False, False) for n in ('N1', 'N4')],
                  [('def_support', 'N1', True, True, True, True, True, True), ('def_support', 'N4', True, True, True, False, False, False)]),
    'loose': ([], [('add_node', 'z1', 10., 500., 0), ('add_node', 'z2', 60., 510., 0), ('add_member', 'MZ', 'z1', 'z2', 'MAT', 9., 9., 9., 9.)],
              [('delete_node', 'z1'), ('delete_node', 'z2')]),
    'lonely': ([], [('add_node', 'y1', 10., 500., 0)], [('delete_node', 'y1')]),
    'torsion': ([], [('def_releases', 'M4', False, False, False, True, True, True, False, False, False, True, True, True)], [('def_releases', 'M4')]),
    'hinge': ([], [('def_releases', 'M4', False, False, False, False, False, True)], [('def_releases', 'M4')]),
    'badmesh': ([], [('add_rectangle_mesh', 'bad', 20., 40., 40., 1., 'nope')], [('delmesh', 'bad')]),
    'badplane': ([], [('add_rectangle_mesh', 'bad', 20., 40., 40., 1., 'CON', 1., 1., [600., 0, 0], 'QQ')], [('delmesh', 'bad')]),
    'shells': ([], [('def_support', n, False, False, False, False, False, False) for n in ('P1', 'P4')],
               [('def_support', n, True, True, True, True, True, True) for n in ('P1', 'P4')]),
    # the second of three combinations drops its only support: the first has already been solved
    'oneway': ([('add_node', 'x1', 0, 300., 0), ('add_node', 'x2', 50., 300., 0), ('add_member', 'MX', 'x1', 'x2', 'MAT', 9., 9., 9., 9., None, True, False)]
               + [('def_support', 'x1', True, True, True, True, True, True), ('def_support', 'x2', False, True, True, True, True, True)],
               [('add_node_load', 'x2', 'FX', 3., 'D'), ('add_node_load', 'x2', 'FX', -3., 'W'), ('add_load_combo', 'C1b', {'D': 1., 'W': 2.}),
                ('add_load_combo', 'C3', {'D': 1.})],
               [('delcombo', 'C1b')]),
    'oneway-first': ([('add_node', 'w1', 0, 400., 0), ('add_node', 'w2', 50., 400., 0), ('add_spring', 'SX', 'w1', 'w2', 9., True, False)]
                     + [('def_support', 'w1', True, True, True, True, True, True), ('def_support', 'w2', False, True, True, True, True, True)],
                     [('add_node_load', 'w2', 'FX', -3., 'D')], [('add_node_load', 'w2', 'FX', 8., 'D')]),
}
ENTRY = [('analyze', {}), ('analyze', dict(sparse=False)), ('analyze', dict(check_stability=False)), ('analyze_linear', {}),
         ('analyze_linear', dict(sparse=False, check_stability=False)), ('analyze_PDelta', {}), ('analyze_PDelta', dict(sparse=False))]


def cases(tier):
    th = tier != 'quick'
    out = [['prefix', i] for i in range(0, len(BUILD) + 1, 1)]
    out += [['phase', p] for p in PHASES]
    out += [['mesh', i, p] for i in range(len(MESHES)) for p in (PHASES if th else ('built', 'analyze', 'delnode'))]
    out += [['query', p] for p in (('analyze', 'linear', 'pdelta', 'dense', 'edited') if th else ('analyze', 'pdelta'))]
    # a linear analysis does not look at one-way elements
    out += [['refused', r, e, b] for r in REFUSED for e in range(len(ENTRY)) for b in (0, 1) if r[:3] != 'one' or ENTRY[e][0] != 'analyze_linear']
    out += [['twice', r, q, e] for r in REFUSED for q in REFUSED for e in (range(len(ENTRY)) if th else (0, 4)) if r < q and r[:3] != q[:3]
            and not (r[:3] == q[:3] == 'one' and ENTRY[e][0] == 'analyze_linear')]
    return out


# ---------------------------------------------------------------- snapshots
SKIP = {'model', 'solution', 'SegmentsX', 'SegmentsY', 'SegmentsZ', 'ID', 'meshes'}
DICTS = ('nodes', 'aux_nodes', 'materials', 'sections', 'springs', 'members', 'plates', 'quads', 'meshes', 'load_combos')


def snap(m, meshes=True):
    """the public content of the model and everything reachable from it"""
    memo = {}

    def walk(o, depth):
        if o is None or isinstance(o, (bool, int, float, str, complex)):
            return o
        if isinstance(o, np.generic):
            return float(o) if not isinstance(o, np.bool_) else bool(o)
        if isinstance(o, np.ndarray):
            return ('arr', o.shape, tuple(np.ravel(o).tolist()))
        if id(o) in memo:
            return ('ref', memo[id(o)])
        if isinstance(o, (list, tuple)):
            return tuple(walk(x, depth + 1) for x in o)
        if isinstance(o, dict):
            return tuple((k, walk(v, depth + 1)) for k, v in o.items())
        memo[id(o)] = len(memo)
        if hasattr(o, '__dict__'):
            return (type(o).__name__,) + tuple((k, walk(v, depth + 1)) for k, v in sorted(o.__dict__.items()) if k[0] != '_' and k not in SKIP)
        return repr(type(o))
    return {d: walk(getattr(m, d), 0) for d in DICTS if meshes or d != 'meshes'}


def difference(a, b):
    for d in a:
        if a[d] != b[d]:
            na, nb = dict(x for x in a[d]), dict(x for x in b[d])
            if set(na) != set(nb):
                return '%s: %s appeared, %s disappeared' % (d, sorted(map(str, set(nb) - set(na))), sorted(map(str, set(na) - set(nb))))
            for n in na:
                if na[n] != nb[n]:
                    return '%s %s: %s' % (d, n, [(x, y) for x, y in zip(na[n], nb[n]) if x != y][:2])
            return '%s: order' % d
    return None


def refuse(rec, key, m, op, before, f=None, meshes=True):
    """performs the request; it has to raise and the model has to stay the same"""
    try:
        got = f() if f else call(m, op)
    except Exception as e:
        rec.true(key + ':refused', True, '')
        rec.outcome((key, type(e).__name__))
    else:
        rec.true(key + ':refused', False, 'invalid request %s was accepted (returned %r)' % (show_op(op), got))
    rec.step()
    rec.trace()
    now = snap(m, meshes)
    diff = None if now == before else difference(before, now)
    rec.true(key + ':unchanged', now == before, 'the refused request %s changed the model: %s' % (show_op(op), str(diff)[:400]))
    return now == before


def show_op(op):
    return '%s(%s)' % (op[0], ', '.join(repr(x) for x in op[1:]))


def everything(m):
    return {c: results(m, c) for c in (m.load_combos or ['Combo 1'])}


def same(rec, key, a, b, what):
    rec.true(key + ':combos', list(a) == list(b), '%s: combinations %s, %s' % (what, list(a), list(b)))
    for c in a:
        if c not in b:
            continue
        rec.true('%s:%s:objects' % (key, c), [k for k, _ in a[c]] == [k for k, _ in b[c]], '%s: different objects' % what)
        for (k, v), (_, w) in zip(a[c], b[c]):
            rec.close('%s:%s:%s' % (key, c, k), v, w, 1e-9, max(np.abs(w).max(initial=0), 1e-3), '%s: %s in %s' % (what, k, c))


def make(n=None):
    m = ops.new_model()
    for op in BUILD[:n]:
        call(m, op)
    return m


def apply(m, op):
    if op[0] == 'delmesh':
        del m.meshes[op[1]]
    elif op[0] == 'delcombo':
        del m.load_combos[op[1]]
    else:
        call(m, op)


def run(case, rec):
    rec.history = case
    kind = case[0]
    key = ':'.join(map(str, case))
    if kind == 'prefix':
        m = make(case[1])
        clean = make()
        flood(rec, key, m)
        for op in BUILD[case[1]:]:
            call(m, op)
            rec.step()
        call(clean, ('analyze',))
        call(m, ('analyze',))
        same(rec, key, everything(m), everything(clean), 'results after refused requests')
    elif kind == 'phase':
        m, clean = make(), make()
        for op in PHASES[case[1]]:
            call(m, op)
            call(clean, op)
            rec.step()
        solved = m.solution is not None
        flood(rec, key, m)
        if solved:
            same(rec, key + ':before', everything(m), everything(clean), 'results read after refused requests')
        for n in LOOSE.get(case[1], []):
            for x in (m, clean):
                call(x, ('delete_node', n))
        call(m, ('analyze',))
        call(clean, ('analyze',))
        same(rec, key, everything(m), everything(clean), 'results after refused requests')
    elif kind == 'mesh':
        m, clean = make(), make()
        f, a = MESHES[case[1]]
        for op in PHASES[case[2]]:
            call(m, op)
            call(clean, op)
            rec.step()
        before = snap(m, False)
        name = []

        def attempt():
            name.append(getattr(m, f)(*a))
            m.meshes[name[0]].generate()
        refuse(rec, key, m, [f, *a], before, attempt, False)
        rec.state(key)
        if name:
            with_mesh = list(m.meshes)
            rec.true(key + ':others', with_mesh[:-1] == list(clean.meshes), 'meshes %s' % with_mesh)
            refuse(rec, key + ':analyze', m, ['analyze'], before, lambda: call(m, ('analyze',)), False) if case[2] == 'built' else None
            m.meshes.pop(name[0])
        for n in LOOSE.get(case[2], []):
            for x in (m, clean):
                call(x, ('delete_node', n))
        # a good mesh with the same name works as in a model that never saw the bad one
        for x in (m, clean):
            n = x.add_rectangle_mesh('bad', 20., 40., 20., 1., 'CON', origin=[600., 0, 0])
            x.meshes[n].generate()
            for nd in list(x.meshes[n].nodes)[:3]:
                call(x, ('def_support', nd, True, True, True, True, True, True))
            call(x, ('analyze',))
            rec.step()
        same(rec, key, everything(m), everything(clean), 'results after a refused mesh')
    elif kind == 'query':
        m, clean = make(), make()
        for op in PHASES[case[1]]:
            call(m, op)
            call(clean, op)
        queries(rec, key, m)
        same(rec, key, everything(m), everything(clean), 'results after refused result requests')
        call(m, ('analyze',))
        call(clean, ('analyze',))
        same(rec, key + ':again', everything(m), everything(clean), 'results after refused result requests and another analysis')
    elif kind in ('refused', 'twice'):
        rs = [case[1]] if kind == 'refused' else case[1:3]
        e, opt = ENTRY[case[2 if kind == 'refused' else 3]]
        m, clean = make(), make()
        for r in rs:
            pre, _, _ = REFUSED[r]
            for op in pre:
                call(m, op)
                call(clean, op)
        if kind == 'refused' and case[3] and rs[0] != 'oneway-first':
            if rs[0] == 'oneway':
                call(m, ('add_node_load', 'x2', 'FX', 1e-3, 'D'))
                call(clean, ('add_node_load', 'x2', 'FX', 1e-3, 'D'))
            call(m, ('analyze',))
        for r in rs:
            for op in REFUSED[r][1]:
                apply(m, op)
                rec.step()
                apply(clean, op)
        before = snap(m, False)
        definition = {d: before[d] for d in ('aux_nodes', 'materials', 'sections')}
        counts = {d: list(getattr(m, d)) for d in DICTS}
        for i in range(2):
            try:
                with ops.quiet():
                    getattr(m, e)(**opt)
            except Exception as ex:
                rec.true('%s:%d:refused' % (key, i), True, '')
                rec.outcome((key, type(ex).__name__))
            else:
                rec.true('%s:%d:refused' % (key, i), False, '%s analysed a model that lacks %s' % (e, rs))
            rec.step()
            rec.state((key, i))
            now = snap(m, False)
            rec.true('%s:%d:kept' % (key, i), all(now[d] == definition[d] for d in definition) and counts == {d: list(getattr(m, d)) for d in DICTS},
                      'the refused analysis changed the objects of the model')
        for r in rs:
            for op in REFUSED[r][2]:
                apply(m, op)
                apply(clean, op)
                rec.step()
        for x in (m, clean):
            with ops.quiet():
                getattr(x, e)(**opt)
        rec.trace()
        same(rec, key, everything(m), everything(clean), 'results after a refused analysis and its cure')


def flood(rec, key, m):
    before = snap(m)
    rec.state((key, 'start'))
    for op in requests(m, True):
        if not refuse(rec, key + ':' + show_op(op).replace(' ', ''), m, op, before):
            before = snap(m)
        rec.state((key, show_op(op)))


def queries(rec, key, m):
    """requests for results that do not exist are never answered with a number"""
    before = snap(m)

    def no(what, f):
        try:
            with ops.quiet():
                got = f()
        except Exception as e:
            rec.outcome((what, type(e).__name__))
            got = None
        ok = got is None or isinstance(got, np.ndarray) and got.ndim == 2 and np.isnan(got[1].astype(float)).all() or isinstance(got, float) and got != got
        rec.true('%s:%s' % (key, what.replace(' ', '')), ok, '%s was answered with %r' % (what, got))
        rec.step()
        rec.trace()
        now = snap(m)
        rec.true('%s:%s:unchanged' % (key, what.replace(' ', '')), now == before, 'asking for %s changed the model: %s' % (what, difference(before, now)))
        rec.state((key, what))
    for n, mem in m.members.items():
        L = mem.L()
        for c in m.load_combos:
            for x in (-1., -1e-3*L, 1.001*L, L + 50.):
                for d in ('Fy', 'Fz'):
                    no('%s shear %s at %g of %g %s' % (n, d, x, L, c), lambda: mem.shear(d, x, c))
                    no('%s shear_array %s at %g %s' % (n, d, x, c), lambda: mem.shear_array(d, 3, c, np.array([0, L/2, x])))
                for d in ('My', 'Mz'):
                    no('%s moment %s at %g of %g %s' % (n, d, x, L, c), lambda: mem.moment(d, x, c))
                    no('%s moment_array %s at %g %s' % (n, d, x, c), lambda: mem.moment_array(d, 3, c, np.array([x, 0, L/2])))
                for d in ('dx', 'dy', 'dz'):
                    no('%s deflection %s at %g of %g %s' % (n, d, x, L, c), lambda: mem.deflection(d, x, c))
                    no('%s deflection_array %s at %g %s' % (n, d, x, c), lambda: mem.deflection_array(d, 3, c, np.array([x])))
                for d in ('dy', 'dz'):
                    no('%s rel_deflection %s at %g of %g %s' % (n, d, x, L, c), lambda: mem.rel_deflection(d, x, c))
                    no('%s rel_deflection_array %s at %g %s' % (n, d, x, c), lambda: mem.rel_deflection_array(d, 3, c, np.array([x])))
                no('%s torque at %g of %g %s' % (n, x, L, c), lambda: mem.torque(x, c))
                no('%s axial at %g of %g %s' % (n, x, L, c), lambda: mem.axial(x, c))
                no('%s torque_array at %g %s' % (n, x, c), lambda: mem.torque_array(3, c, np.array([x])))
                no('%s axial_array at %g %s' % (n, x, c), lambda: mem.axial_array(3, c, np.array([x])))
        for c in ('nope', 'c1', '', None, 'D'):
            for f, d in (('shear', 'Fy'), ('moment', 'Mz'), ('deflection', 'dy')):
                no('%s %s in combination %s' % (n, f, c), lambda: getattr(mem, f)(d, L/3, c))
                no('%s max_%s in combination %s' % (n, f, c), lambda: getattr(mem, 'max_' + f)(d, c))
                no('%s min_%s in combination %s' % (n, f, c), lambda: getattr(mem, 'min_' + f)(d, c))
                no('%s %s_array in combination %s' % (n, f, c), lambda: getattr(mem, f + '_array')(d, 5, c))
            for f in ('axial', 'torque'):
                no('%s %s in combination %s' % (n, f, c), lambda: getattr(mem, f)(L/3, c))
                no('%s max_%s in combination %s' % (n, f, c), lambda: getattr(mem, 'max_' + f)(c))
        for d in ('XX', 'fy', '', None, 0):
            for f in ('shear', 'moment', 'deflection', 'rel_deflection'):
                no('%s %s %s' % (n, f, d), lambda: getattr(mem, f)(d, L/3, 'C1'))
                no('%s %s_array %s' % (n, f, d), lambda: getattr(mem, f + '_array')(d, 5, 'C1'))
            for f in ('max_shear', 'min_shear', 'max_moment', 'min_moment', 'max_deflection', 'min_deflection'):
                no('%s %s %s' % (n, f, d), lambda: getattr(mem, f)(d, 'C1'))
    for n, mesh in m.meshes.items():
        for d in ('Fx', 'Q', '', 'Mz', 'Qz'):
            if d != 'Mz':
                no('%s max_moment %s' % (n, d), lambda: mesh.max_moment(d, 'C1'))
                no('%s min_moment %s' % (n, d), lambda: mesh.min_moment(d, 'C1'))
            no('%s max_shear %s' % (n, d), lambda: mesh.max_shear(d, 'C1'))
            no('%s min_shear %s' % (n, d), lambda: mesh.min_shear(d, 'C1'))
    for n, s in m.springs.items():
        for c in ('nope', 'c1', '', None):
            no('%s axial %s' % (n, c), lambda: s.axial(c))
    for n in ('Q1', 'R1'):
        el = m.quads.get(n) or m.plates[n]
        for c in ('nope', 'c1', '', None):
            for f in ('shear', 'moment', 'membrane'):
                no('%s %s %s' % (n, f, c), lambda: getattr(el, f)(0, 0, True, c))
