"""Meshes among each other and among existing content."""
import itertools

import numpy as np

from .. import ops

ID = 'P17'
TITLE = 'Meshes live alongside existing content and each other'
RULE = ('every sequence up to depth d over adding meshes of every kind (automatic and colliding first names), generating, adding openings, adding nodes '
        'and elements by automatic and colliding names, analyzing, and finally merging; registries are checked after every operation')
ASSUMPTIONS = ['a mesh is not generated again after its nodes were merged with nodes of the user']


def add_mesh(m, kind, n, **kw):
    if kind in ('quad', 'rect'):
        m.add_rectangle_mesh('M%d' % n, 2., 4., 4., .5, 'C', origin=[4.0*n, 0, 0], element_type=kind.capitalize(), **kw)
    elif kind == 'annulus':
        m.add_annulus_mesh('M%d' % n, 2., 2., 1., .5, 'C', origin=[10.0*n, 0, 50], **kw)
    elif kind == 'frustrum':
        m.add_frustrum_mesh('M%d' % n, 2., 2., 1., 1., .5, 'C', origin=[10.0*n, 0, 70], **kw)
    else:
        m.add_cylinder_mesh('M%d' % n, 2., 1., 2., .5, 'C', origin=[10.0*n, 0, 90], element_type=kind[3:] or 'Quad', **kw)


ALPHA = [('mesh', 'quad', {}), ('mesh', 'rect', dict(start_node='N1', start_element='R1')), ('mesh', 'quad', dict(start_node='N3', start_element='Q2')),
         ('mesh', 'annulus', {}), ('mesh', 'annulus', dict(start_node='N2', start_element='Q1')), ('mesh', 'frustrum', dict(start_node='N5')),
         ('mesh', 'cyl', {}), ('mesh', 'cylRect', dict(start_node='N2', start_element='R2')), ('gen', 0), ('gen', -1), ('opening',),
         ('node', 'N4'), ('node', None), ('quad', 'Q3'), ('quad', None), ('plate', 'R2'), ('analyze',), ('merge',), ('delnode',), ('integrity',)]


def cases(tier):
    d = 3 if tier == 'quick' else 4
    first = range(len(ALPHA))
    return [[d, list(p)] for p in itertools.product(first, repeat=2)]


class World:
    def __init__(self):
        m = self.m = ops.new_model()
        m.add_material('C', 3600., 1500., .2, .0001)
        self.user = {}
        self.merged = False
        for i, n in enumerate(('N1', 'U2', 'U3', 'N7')):
            self.note('nodes', m.add_node(n, (-30., -28., -28., -30.)[i], (0., 0., 2., 2.)[i], 0.))
        self.note('members', m.add_member('L', 'N1', 'U3', 'C', 1., 1., 1., 1.))
        self.note('quads', m.add_quad('Q1', 'N1', 'U2', 'U3', 'N7', .5, 'C'))
        self.note('plates', m.add_plate('R1', 'N1', 'U2', 'U3', 'N7', .5, 'C'))
        m.add_node_load('N1', 'FX', 3.0)
        m.def_support('N7', True, True, True, True, True, True)
        for n in ('N1', 'N7'):
            self.note('nodes', n)
        self.nmesh = 0
        self.gone = set()
        self.ident = {}        # generated meshes: identities of nodes and elements

    def note(self, reg, name):
        x = getattr(self.m, reg)[name]
        self.user[reg, name] = (x, self.sig(reg, x))

    @staticmethod
    def sig(reg, x):
        if reg == 'nodes':
            return (x.X, x.Y, x.Z, x.support_DX, tuple(map(tuple, x.NodeLoads)))
        return tuple(id(getattr(x, c + '_node', None)) for c in 'ijmn')

    def apply(self, op):
        """False if the operation does not apply"""
        m = self.m
        k = op[0]
        if k == 'mesh':
            add_mesh(m, op[1], self.nmesh, **op[2])
            self.nmesh += 1
        elif k == 'gen':
            ms = list(m.meshes.values())
            if not ms:
                return False
            x = ms[op[1]]
            self.ident.pop(id(x), None)
            x.generate()
        elif k == 'opening':
            x = next((x for x in m.meshes.values() if hasattr(x, 'openings')), None)
            if x is None:
                return False
            self.ident.pop(id(x), None)
            n = len(x.openings)
            x.add_rect_opening('O%d' % n, (0, 2, 0)[n % 3], (0, 2, 2)[n % 3], 2, 1.5)
        elif k == 'node':
            if op[1] in m.nodes:
                return False
            self.note('nodes', m.add_node(op[1], -50. - len(m.nodes), 3., 1.))
        elif k == 'quad':
            if op[1] in m.quads:
                return False
            self.note('quads', m.add_quad(op[1], 'N1', 'U2', 'U3', 'N7', .5, 'C'))
        elif k == 'plate':
            if op[1] in m.plates:
                return False
            self.note('plates', m.add_plate(op[1], 'N1', 'U2', 'U3', 'N7', .5, 'C'))
        elif k == 'analyze':
            try:
                ops.apply_real(m, ['analyze', {}])
            except Exception as e:
                if 'stab' not in str(e).lower() and 'singular' not in str(e).lower():
                    raise
        elif k == 'merge':
            m.merge_duplicate_nodes()
            self.merged = True
        elif k == 'delnode':
            free = [n for (r, n), v in self.user.items() if r == 'nodes' and n not in ('N1', 'U2', 'U3', 'N7')]
            if not free:
                return False
            m.delete_node(free[0])
            del self.user['nodes', free[0]]
        elif k == 'integrity':
            if not any(x.is_generated() for x in m.meshes.values()):
                return False
        return True

    def check(self, rec, key, op):
        m = self.m
        for (reg, n), (x, s) in self.user.items():
            y = getattr(m, reg).get(n)
            rec.true(key + ':user', y is x and y.name == n and self.sig(reg, y) == s, '%s %s of the user was replaced or changed by %s' % (reg, n, op))
        cnt = {'nodes': 0, 'quads': 0, 'plates': 0}
        for name, w in m.meshes.items():
            if not w.nodes:
                rec.true(key + ':empty', not w.is_generated() and not w.elements, 'mesh %s is flagged as generated but has no nodes' % name)
                continue
            reg = m.quads if w.element_type == 'Quad' else m.plates
            rec.true(key + ':mesh-nodes', all(m.nodes.get(n) is x and x.name == n for n, x in w.nodes.items()), 'nodes of mesh %s are not the model\'s after %s' % (name, op))
            rec.true(key + ':mesh-elements', all(reg.get(n) is x and x.name == n for n, x in w.elements.items()), 'elements of mesh %s are not the model\'s after %s' % (name, op))
            cor = {id(getattr(e, c + '_node')) for e in w.elements.values() for c in 'ijmn'}
            rec.true(key + ':mesh-corners', cor == {id(x) for x in w.nodes.values()}, 'mesh %s: corners and nodes differ after %s' % (name, op))
            cnt['nodes'] += len(w.nodes)
            cnt['quads' if w.element_type == 'Quad' else 'plates'] += len(w.elements)
            now = ([id(x) for x in w.nodes.values()], [id(x) for x in w.elements.values()])
            if id(w) in self.ident and not self.merged:
                rec.true(key + ':again', self.ident[id(w)] == now, 'mesh %s was generated again by %s' % (name, op))
            if w.is_generated():
                self.ident[id(w)] = now
                ok = self.integrity(w)
                rec.true(key + ':integrity', ok == ['No errors detected.'], 'mesh integrity check of %s: %s' % (name, ok))
        for reg in ('quads', 'plates', 'members'):
            for n, e in getattr(m, reg).items():
                rec.true(key + ':own', e.name == n, '%s %s registered as %s' % (reg, e.name, n))
                for c in 'ijmn':
                    x = getattr(e, c + '_node', None)
                    rec.true(key + ':attached', x is None or m.nodes.get(x.name) is x, '%s %s is attached to a node outside the model after %s' % (reg, n, op))
        if self.merged:
            pts = {tuple(np.round((x.X, x.Y, x.Z), 6)) for x in m.nodes.values()}
            rec.true(key + ':merged', len(pts) == len(m.nodes), '%d nodes at %d places after merging' % (len(m.nodes), len(pts)))
        for reg in cnt:
            if reg == 'nodes' and self.merged:
                continue
            want = cnt[reg] + sum(r == reg for r, _ in self.user)
            rec.true(key + ':count', len(getattr(m, reg)) == want, '%d %s in the model, expected %d after %s' % (len(getattr(m, reg)), reg, want, op))
        if op[0] == 'analyze':
            rec.true(key + ':auto', all(w.is_generated() for w in m.meshes.values()), 'the analysis left a mesh ungenerated')

    @staticmethod
    def integrity(w):
        from PyNite.Mesh import check_mesh_integrity
        return check_mesh_integrity(w, console_log=False)


def run(case, rec):
    d, pre = case
    for rest in itertools.product(range(len(ALPHA)), repeat=d - len(pre)):
        seq = pre + list(rest)
        if ('merge',) in [ALPHA[i] for i in seq[:-1]]:
            continue
        w = World()
        rec.history = [list(ALPHA[i]) for i in seq]
        ok = True
        for k, i in enumerate(seq):
            if not w.apply(ALPHA[i]):
                ok = False
                break
            rec.step()
            w.check(rec, '.'.join(map(str, seq[:k + 1])), ALPHA[i])
        if ok:
            rec.state(tuple(seq))
            rec.trace()
            rec.outcome((len(w.m.nodes), len(w.m.quads), len(w.m.plates)))
