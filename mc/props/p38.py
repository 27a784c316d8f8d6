"""The mesh integrity check."""
import contextlib
import io
import itertools

from .. import ops
from . import p37

ID = 'P38'
TITLE = 'The mesh integrity check finds exactly the meshes out of step with the model'
RULE = ('every mesh kind; every public history up to a depth of merging, renaming, deleting, loading, adding and generating other meshes leaves '
        'the check satisfied; every single fault and every pair of faults injected into mesh, model or element dictionaries is reported, with the number '
        'of elements or nodes concerned, on the console as in the returned list')
ASSUMPTIONS = ['the wording of the messages is not examined beyond the number they begin with']

MAT = ['mat', 'C', 1000., 400., .3, 1.]
MESHES = {
    'quad': ['rmesh', 'M', 1., 2., 2., 1., 'C'],
    'rect': ['rmesh', 'M', 1., 2., 2., 1., 'C', dict(element_type='Rect')],
    'open': ['rmesh', 'M', 1., 3., 3., 1., 'C'],
    'annulus': ['ann', 'M', 2., 4., 2., 1., 'C', dict(axis='Y')],
    'frustrum': ['fru', 'M', 2., 4., 2., 3., 1., 'C', dict(axis='Y')],
    'cylinder': ['cyl', 'M', 2., 2., 4., 1., 'C', dict(num_elements=6)],
    'cylrect': ['cyl', 'M', 2., 2., 4., 1., 'C', dict(num_elements=6, element_type='Rect')],
}
EDITS = [['merge'], ['rename'], ['del', 0], ['del', -1], ['press', 1., 'K'], ['corner', 'FX', 1., 'K'], ['node', 'N1', 50., 0., 0.], ['again'], ['other'], ['over'], ['solve']]
NODES = ('i_node', 'j_node', 'm_node', 'n_node')


def make(kind):
    m = ops.new_model()
    p37.do(m, MAT)
    p37.do(m, MESHES[kind])
    if kind == 'open':
        m.meshes['M'].add_rect_opening('O', 1., 1., 1., 1.)
    m.meshes['M'].generate()
    return m


def expected(mesh):
    """[number concerned] of every kind of discrepancy that is present"""
    mo, es = mesh.model, list(mesh.elements.values())
    own = lambda e: mo.plates if e.type == 'Rect' else mo.quads
    ids = lambda d: {id(x) for x in d.values()}
    mn, gn, ge = ids(mesh.nodes), ids(mo.nodes), ids(mo.plates) | ids(mo.quads)
    return [k for k in (
        sum(any(id(getattr(e, n)) not in mn for n in NODES) for e in es),
        sum(any(id(getattr(e, n)) not in gn for n in NODES) for e in es),
        sum(len({id(getattr(e, n)) for n in NODES}) < 4 for e in es),
        sum(e.name not in mo.plates and e.name not in mo.quads for e in es),
        sum(id(e) not in ge for e in es),
        sum(e.name not in own(e) or mesh.elements.get(e.name) is not own(e)[e.name] for e in es),
        sum(n.name not in mesh.nodes for n in mesh.nodes.values())) if k]


def check(rec, key, mesh, what):
    from PyNite.Mesh import check_mesh_integrity
    want = expected(mesh)
    got = check_mesh_integrity(mesh, console_log=False)
    rec.step()
    if not want:
        rec.true(key + ':clean', got == ['No errors detected.'], '%s: a mesh in step with its model is reported with %s' % (what, got))
    else:
        nums = [int(g.split()[0]) if g.split()[0].isdigit() else None for g in got]
        rec.true(key + ':found', nums == want, '%s: discrepancies %s, reported %s' % (what, want, got))
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = check_mesh_integrity(mesh)
    rec.true(key + ':console', not r and b.getvalue().splitlines() == got, '%s: console %r, list %r' % (what, b.getvalue(), got))
    rec.outcome((key, tuple(want)))
    return want


def dele(m, e):
    return m.plates if e.type == 'Rect' else m.quads


def faults(kind):
    return ['mesh-node', 'model-node', 'foreign', 'repeat-ij', 'repeat-in', 'repeat-jm', 'repeat-mn', 'repeat-im', 'repeat-jn', 'gone', 'replaced', 'element-key', 'node-key', 'node-name', 'element-name',
            'twin']


def inject(m, f, i):
    """fault number i of a kind; True if it could be made"""
    me = m.meshes['M']
    es = list(me.elements.values())
    e = es[i % len(es)]
    k, _, w = f.partition('-')
    if f == 'mesh-node':
        nm = next((k for k, v in me.nodes.items() if v is e.i_node), None)
        return me.nodes.pop(nm, None) is not None
    if f == 'model-node':
        return m.nodes.pop(e.m_node.name, None) is not None
    if f == 'foreign':
        nm = m.unique_name(m.nodes, 'F')
        m.add_node(nm, 77., i, 0.)
        setattr(e, NODES[i % 4], m.nodes[nm])
    elif k == 'repeat':
        setattr(e, w[1] + '_node', getattr(e, w[0] + '_node'))
    elif f == 'gone':
        return dele(m, e).pop(e.name, None) is not None
    elif f == 'replaced':
        import copy
        dele(m, e)[e.name] = copy.copy(e)
    elif f == 'element-key':
        nm = next(k for k, v in me.elements.items() if v is e)
        me.elements['key%d' % i] = me.elements.pop(nm)
    elif f == 'node-key':
        nm = next((k for k, v in me.nodes.items() if v is e.j_node), None)
        if nm is None:
            return False
        me.nodes['key%d' % i] = me.nodes.pop(nm)
    elif f == 'node-name':
        e.n_node.name = 'other%d' % i
    elif f == 'element-name':
        e.name = 'other%d' % i
    elif f == 'twin':
        # the element stands in the model under another name
        d = dele(m, e)
        if e.name not in d:
            return False
        d['twin%d' % i] = d.pop(e.name)
    return True


def cases(tier):
    th = tier != 'quick'
    out = []
    for k in MESHES:
        out.append(['hist', k, []])
        for d in ((1, 2, 3) if th else (1, 2)):
            for s in itertools.product(range(len(EDITS)), repeat=d):
                out.append(['hist', k, list(s)])
        fs = faults(k)
        out += [['fault', k, [[f, i]]] for f in fs for i in range(4)]
        for f in fs:
            for g in fs:
                for i, j in ((0, 0), (0, 1), (2, 1)) if th else ((0, 0), (0, 1)):
                    out.append(['fault', k, [[f, i], [g, j]]])
    if th:
        for k in ('quad', 'cylrect'):
            for s in itertools.product(faults(k), repeat=3):
                out.append(['fault', k, [[f, i] for i, f in enumerate(s)]])
    return out


def edit(m, e):
    me = m.meshes['M']
    k = e[0]
    if k == 'del':
        if len(m.nodes) < 3:
            return
        m.delete_node(list(m.nodes)[e[1]])
    elif k == 'press':
        for q in m.quads:
            m.add_quad_surface_pressure(q, 1., 'K')
        for q in m.plates:
            m.add_plate_surface_pressure(q, 1., 'K')
    elif k == 'node':
        if e[1] not in m.nodes:
            m.add_node(*e[1:])
    elif k == 'again':
        me.generate()
    elif k in ('other', 'over'):
        nm = m.unique_name(m.meshes, 'X')
        m.add_rectangle_mesh(nm, 1., 2., 2., 1., 'C', origin=[0., 0., 0.] if k == 'over' else [9., 9., 9.])
        m.meshes[nm].generate()
    elif k == 'solve':
        lo = min(n.Y for n in m.nodes.values())
        for nm, n in m.nodes.items():
            if not any(n in (q.i_node, q.j_node, q.m_node, q.n_node) for q in list(m.quads.values()) + list(m.plates.values())) or n.Y < lo + 1e-6:
                m.def_support(nm, *[True]*6)
        try:
            m.analyze()
        except Exception as x:
            if 'nstable' not in str(x) and 'singular' not in str(x):
                raise
    elif k == 'corner':
        m.add_node_load(list(m.nodes)[-1], *e[1:])
    else:
        p37.do(m, e)


def run(case, rec):
    rec.history = case
    kind, k, s = case
    key = '%s:%s:%s' % (kind, k, '+'.join('%s.%s' % tuple(x) if isinstance(x, list) else EDITS[x][0] + str(EDITS[x][-1] if len(EDITS[x]) == 2 else '') for x in s))
    with ops.quiet():
        m = make(k)
    if kind == 'hist':
        merged = False
        for n, i in enumerate(s):
            # generating a mesh again after its nodes were merged or deleted is not claimed
            if EDITS[i][0] == 'again' and merged:
                return
            merged |= EDITS[i][0] in ('merge', 'del')
            with ops.quiet():
                edit(m, EDITS[i])
            rec.state((k, tuple(s[:n + 1])))
        for nm, me in m.meshes.items():
            w = check(rec, '%s:%s' % (key, nm), me, 'mesh %s after %s' % (nm, [EDITS[i] for i in s]))
            rec.true('%s:%s:sound' % (key, nm), not w, 'mesh %s is out of step with the model after %s: %s' % (nm, [EDITS[i] for i in s], w))
    else:
        for f, i in s:
            if not inject(m, f, i):
                return
        rec.state((k, tuple(map(tuple, s))))
        check(rec, key, m.meshes['M'], 'faults %s' % s)
    rec.trace()
