"""The same structure described in other consistent units gives the same results in those units."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, ORIENT, member, rel, sup

ID = 'P29'
TITLE = 'Results do not depend on the units the model is written in'
RULE = ('every structure (and its deviations), every pair of member loads, nodes very close to the ends of a member, one-way elements, every mesh, every mechanism of the instability '
        'check x every analysis x every pair of length and force units; every reported number is compared after conversion')
ASSUMPTIONS = ['units for structures of ordinary size: lengths of .3 to 6000 units, forces from meganewtons to newtons',
               'merge tolerances are given in the units of the model']
# length and force factors: feet/kips to metres, millimetres and inches, meganewtons, kilonewtons, newtons and pounds
UNITS = [(.3048, 4.448), (304.8, 4448.0), (12.0, 1.0), (.3048, 4.448e-3), (12.0, 1000.0), (.3048, 4448.0), (304.8, 4.448)]
DOF = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
MESHES = {
    'rect': ('rect', (1.7, 7.0, 5.0), dict(element_type='Quad', x_control=[2.1], y_control=[3.3, 4.99]), (2.5, 1.2, 2.0, 2.2)),
    'rectR': ('rect', (1.3, 4.0, 5.0), dict(element_type='Rect', plane='YZ', origin=[1., 2., 3.]), (1.0, 1.3, 1.0, 1.0)),
    'annulus': ('annulus', (2.0, 4.1, 2.3), dict(origin=[3., 1., 2.]), None),
    'frustrum': ('frustrum', (2.2, 4.0, 2.1, 3.0), dict(axis='X', origin=[1., 2., 3.]), None),
    'cyl': ('cyl', (1.9, 3.0, 4.0), dict(element_type='Rect', origin=[1., 2., 3.]), None),
    'cyl7': ('cyl', (1.9, 3.0, 4.0), dict(num_elements=7, axis='Z'), None),
}


def cases(tier):
    th = tier != 'quick'
    out = []
    for u in range(len(UNITS)):
        for s in frames.ALL:
            for e in ('analyze', 'analyze_linear', 'pdelta'):
                if th or e == 'analyze' or (u + len(s)) % 3 == 0:
                    out.append(['frame', s, [], e, u])
            for i, v in enumerate(frames.variants(s, 1)[1:]):
                if th or (i + u) % 21 == 0:
                    out.append(['frame', s, v, ('analyze', 'pdelta', 'analyze_linear')[i % 3], u])
        for o in ('+X', '-Y', 'XYZ') if th else ('XYZ', '-Y')[u % 2:][:1]:
            for i in range(17):
                out.append(['pair', o, i, u])
        for k, ps in enumerate(itertools.combinations((.002, .03, .47, .98, .999), 2)):
            for o in ('+X', '+Y', 'XYZ') if th else (('+X', '+Y', 'XYZ')[(k + u) % 3],):
                out.append(['near', o, list(ps), u])
        for k in range(24):
            if th or (k + u) % 3 == 0:
                out.append(['oneway', k, u])
        for k in MESHES:
            out.append(['mesh', k, u])
        for i in range(8):
            out += [['stab', 'truss', [('m', 's')[i % 2], i//2], u]] if th or (i + u) % 4 == 0 else []
            out += [['stab', 'tcx', [i], u]]
        for i in range(9):
            out += [['stab', 'pin', [i % 3, 'fsk'[i//3], 'sfk'[(i + u) % 3]], u]] if th or (i + u) % 3 == 0 else []
        for i in range(64):
            if th or (i*5 + u) % 16 == 0:
                out += [['stab', 'gerber', [format(i, '06b')], u], ['stab', 'supc', ['XYZ', format(i, '06b')], u], ['stab', 'relc', ['XYZ', format(i, '06b')], u]]
        for i in range(4):
            out += [['stab', 'shell', [('quad', 'plate')[i % 2], ('XY', 'SK')[i//2], (i + u) % 8], u]] if th or i == u % 4 else []
    return out


def convert(h, a, b):
    """the same history in units in which lengths are a and forces are b times as many"""
    out = []
    for op in h:
        k, x = op[0], list(op[1:])
        if k in ('node', 'aux'):
            x[1:4] = [v*a for v in x[1:4]]
        elif k == 'mat':
            x[1], x[2], x[4] = x[1]*b/a**2, x[2]*b/a**2, x[4]*b/a**3
        elif k == 'member':
            x[4], x[5], x[6], x[7] = x[4]*a**4, x[5]*a**4, x[6]*a**4, x[7]*a**2
        elif k == 'spring':
            x[3] = x[3]*b/a
        elif k in ('quad', 'plate'):
            x[5] = x[5]*a
        elif k == 'sspring' and x[2] is not None:
            x[2] = x[2]*(b/a if x[1][0] == 'D' else b*a)
        elif k == 'disp' and x[2] is not None:
            x[2] = x[2]*(a if x[1][0] == 'D' else 1)
        elif k == 'nload':
            x[2] = x[2]*(b if x[1][0] == 'F' else a*b)
        elif k == 'ptload':
            x[2], x[3] = x[2]*(b if x[1][0] == 'F' else a*b), x[3]*a
        elif k == 'dload':
            x[2], x[3] = x[2]*b/a, x[3]*b/a
            x[4:6] = [v if v is None else v*a for v in x[4:6]]
        elif k in ('qpress', 'ppress'):
            x[1] = x[1]*b/a**2
        out.append([k] + x)
    return out


def reported(m, c, a=1.0, b=1.0):
    """every reported number of a combination, expressed in the original units"""
    out = []
    D, R = np.array([a]*3 + [1.0]*3), np.array([b]*3 + [a*b]*3)
    for n, v in ops.disp(m, c).items():
        out.append(('disp:' + n, (v/D)[:3]))
        out.append(('rot:' + n, v[3:]))
    for n, v in ops.reac(m, c).items():
        out.append(('reac:' + n, v/R))
    for n, mem in m.members.items():
        L = mem.L()
        q = []
        for t in (0, .31, .68, 1):
            x = t*L
            q += [mem.shear('Fy', x, c)/b, mem.shear('Fz', x, c)/b, mem.moment('My', x, c)/a/b, mem.moment('Mz', x, c)/a/b, mem.torque(x, c)/a/b, mem.axial(x, c)/b]
        out.append(('cut:' + n, np.array(q, float)))
        out.append(('ext:' + n, np.array([f/a/b for d in ('My', 'Mz') for f in (mem.max_moment(d, c), mem.min_moment(d, c))] +
                                        [f/b for d in ('Fy', 'Fz') for f in (mem.max_shear(d, c), mem.min_shear(d, c))] +
                                        [mem.max_axial(c)/b, mem.min_axial(c)/b, mem.max_torque(c)/a/b, mem.min_torque(c)/a/b], float)))
        out.append(('defl:' + n, np.array([mem.deflection(d, t*L, c)/a for d in ('dx', 'dy', 'dz') for t in (.2, .5, .9)] +
                                          [f/a for d in ('dx', 'dy', 'dz') for f in (mem.max_deflection(d, c), mem.min_deflection(d, c))] +
                                          [mem.rel_deflection(d, .4*L, c)/a for d in ('dy', 'dz')], float)))
        out.append(('arr:' + n, np.concatenate([mem.moment_array('Mz', 5, c)[1]/a/b, mem.moment_array('My', 5, c)[1]/a/b, mem.shear_array('Fy', 4, c)[1]/b,
                                                mem.axial_array(3, c)[1]/b, mem.torque_array(3, c)[1]/a/b])))
        out.append(('darr:' + n, np.concatenate([mem.deflection_array('dy', 5, c)[1]/a, mem.deflection_array('dz', 5, c)[1]/a, mem.deflection_array('dx', 3, c)[1]/a])))
        out.append(('end:' + n, np.concatenate([np.asarray(mem.F(c), float).reshape(12)/np.tile(R, 2), np.asarray(mem.f(c), float).reshape(12)/np.tile(R, 2)])))
    for n, s in m.springs.items():
        out.append(('spring:' + n, np.array([s.axial(c)], float)/b))
    for els, kind in ((m.quads, 'quad'), (m.plates, 'plate')):
        for n, q in els.items():
            pts = ((0, 0), (.6, -.3)) if kind == 'quad' else tuple((q.width()*s, q.height()*t) for s, t in ((.5, .5), (.2, .8)))
            for lab, f, sc in (('mom', q.moment, b), ('shear', q.shear, b/a), ('mem', q.membrane, b/a**2)):
                out.append(('%s-%s:%s' % (kind, lab, n), np.concatenate([np.ravel(f(x, y, True, c))/sc for x, y in pts])))
    for n, w in m.meshes.items():
        out.append(('mesh-m:' + n, np.array([f(d, c)/b for d in ('Mx', 'My', 'Mxy') for f in (w.max_moment, w.min_moment)], float)))
        out.append(('mesh-q:' + n, np.array([f(d, c)*a/b for d in ('Qx', 'Qy') for f in (w.max_shear, w.min_shear)], float)))
    return out


def compare(rec, key, got, want, msg, tol=2e-6):
    sc = {}
    for lab, x in want:
        g = lab.split(':')[0]
        sc[g] = max(sc.get(g, 1e-6), np.abs(x).max() if x.size else 0)
    for g in ('spring', 'cut', 'ext', 'arr', 'end'):
        sc[g] = max(sc.get(g, 0), .01*sc.get('reac', 0))
    for g in ('disp', 'rot', 'defl', 'darr'):
        sc[g] = max(sc.get(g, 0), .01*sc.get('disp', 0), .01*sc.get('rot', 0))
    for p in ('quad', 'plate'):
        top = max([sc.get(p + x, 0) for x in ('-mom', '-shear')] + [0])
        for x in ('-mom', '-shear'):
            sc[p + x] = max(sc.get(p + x, 0), .01*top)
    w = dict(want)
    rec.true(key + ':objects', set(w) == {l for l, _ in got}, '%s: objects differ' % msg)
    for lab, x in got:
        if lab in w:
            rec.close('%s:%s' % (key, lab), x, w[lab], tol, max(sc[lab.split(':')[0]], 1e-9), '%s: %s' % (msg, lab))
    rec.trace()


_BASE = {}


def answers(h, e):
    """reported numbers per combination in the original units, once per process"""
    k = repr((h, e))
    if k not in _BASE:
        if len(_BASE) > 60:
            _BASE.clear()
        m = ops.build(h)
        ops.apply_real(m, [e, {}])
        _BASE[k] = {c: reported(m, c) for c in m.load_combos}
    return _BASE[k]


def both(rec, key, h, e, u, r=None):
    a, b = UNITS[u]
    want = answers(h, e)
    h2 = convert(h, a, b)
    rec.history = h2
    m = ops.build(h2)
    ops.apply_real(m, [e, {}])
    rec.step()
    rec.state((key,))
    for c in want:
        compare(rec, '%s:%s' % (key, c), reported(m, c, a, b), want[c], 'lengths x %g, forces x %g, %s, %s' % (a, b, e, c))
        rec.outcome((key, c))


def frame(case, rec):
    _, s, v, e, u = case
    h, loads = frames.history(s, v)
    h = h + [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)] + [
        ['combo', 'A', {'K0': 1.0, 'K1': .5, 'K2': -.7}], ['combo', 'B', {'K1': -1.2, 'K2': 1.0}], ['combo', 'Z', {}]]
    r = ref.Ref()
    for op in h:
        r.apply(op)
    try:
        for c in r.combos:
            r.solve(c)
    except ref.Unstable:
        return
    both(rec, '%s:%s:%s:%d' % (s, '+'.join(v), e, u), h, e, u)


def pair(case, rec):
    from .p04 import DIST, PTS
    _, o, i, u = case
    allp = DIST + PTS
    for inner in ((), (.37,)):
        for j in range(len(allp)):
            if inner and (i + j) % 3:
                continue
            d = ORIENT[o]
            h = frames.single(d) + [['node', 'V%d' % k] + [(1, 2, 3)[c] + 10*t*d[c] for c in range(3)] for k, t in enumerate(inner)]
            h += [sup('I', '111100'), sup('J', '111011'), allp[i] + ['A'], allp[j] + ['B'], ['combo', 'C', {'A': 1.0, 'B': 1.0}], ['combo', 'D', {'A': -1.2, 'B': .9}]]
            # a load exactly at the end of a member may be read before or after the end
            h = [op[:4] + [9.7] + op[5:] if op[0] == 'ptload' and op[4] == 10 else op for op in h]
            both(rec, 'pair:%s:%d:%d:%d:%d' % (o, i, j, len(inner), u), h, 'analyze' if (i + j) % 4 else 'pdelta', u)


def near(case, rec):
    """nodes very close to the ends of a member; they carry the member, so it matters whether they are part of it"""
    _, o, ps, u = case
    d = ORIENT[o]
    h = frames.single(d) + [['node', 'V%d' % k] + [(1, 2, 3)[c] + 10*t*d[c] for c in range(3)] for k, t in enumerate(ps)]
    h += [['node', 'OUT'] + [(1, 2, 3)[c] - .01*d[c] for c in range(3)], ['node', 'OFF'] + [(1, 2, 3)[c] + 5*d[c] + .5*(c == 2) - .5*(c == 1) for c in range(3)]]
    h += [sup('V%d' % k, '111111') for k in range(2)] + [sup('OUT', '111111'), sup('OFF', '111111')]
    h += [['nload', n, f, v, 'A'] for n, v in (('I', 1.0), ('J', -2.0)) for f in ('FX', 'FY', 'FZ', 'MY')]
    h += [['dload', 'M', 'Fy', -.3, -.2, 1.0, 9.0, 'B'], ['combo', 'C', {'A': 1.0, 'B': 1.0}]]
    both(rec, 'near:%s:%s:%d' % (o, ps, u), h, 'analyze' if u % 3 else 'pdelta', u)


def oneway(case, rec):
    from .p25 import oneway as frame_
    _, k, u = case
    s = frame_()
    h = s['base'] + [list(l) + ['K%d' % i] for i, l in enumerate(s['loads'])]
    f = [(1, .5, 1, .2), (-1, 1, .6, 1), (.3, -1, 1, -1), (1, 1, -1, .5), (-.4, -1, -1, 0), (0, 0, 1, 1)][k % 6]
    h += [['combo', 'A', {'K%d' % i: x for i, x in enumerate(f)}], ['combo', 'B', {'K%d' % i: -x for i, x in enumerate(f)}]]
    if k//6 == 1:
        h = [[op[0]] + [dict(tension_only=True) if isinstance(x, dict) and x.get('comp_only') else x for x in op[1:]] for op in h]
    elif k//6 == 2:
        h = [op[:4] + ['+' if op[4] == '-' else '-'] if op[0] == 'sspring' and len(op) > 4 else op for op in h]
    elif k//6 == 3:
        h = [op[:2] + [op[3], op[2]] + op[4:] if op[0] == 'member' else op for op in h]
    e = 'pdelta' if k % 6 == 5 else 'analyze'
    try:
        answers(h, e)
    except Exception as x:
        if 'iverge' not in str(x) and 'nstable' not in str(x) and 'singular' not in str(x):
            raise
        m = ops.build(convert(h, *UNITS[u]))
        try:
            ops.apply_real(m, [e, {}])
        except Exception:
            return
        rec.fail('oneway:%d:%d' % (k, u), 'refused in one system of units and solved in another: %r' % x)
        return
    both(rec, 'oneway:%d:%d' % (k, u), h, e, u)


def meshed(kind, a, b):
    m = ops.new_model()
    m.add_material('C', 3600.*b/a**2, 1500.*b/a**2, .2, .0001*b/a**3)
    k, dims, kw, op = MESHES[kind]
    kw = dict(kw)
    for x in ('origin', 'x_control', 'y_control'):
        if x in kw:
            kw[x] = [v*a for v in kw[x]]
    f = dict(rect=m.add_rectangle_mesh, annulus=m.add_annulus_mesh, frustrum=m.add_frustrum_mesh, cyl=m.add_cylinder_mesh)[k]
    f('W', *[v*a for v in dims], .4*a, 'C', **kw)
    if op:
        m.meshes['W'].add_rect_opening('O', *[v*a for v in op])
    if not m.meshes['W'].is_generated():
        m.meshes['W'].generate()
    return m


def mesh(case, rec):
    _, k, u = case
    a, b = UNITS[u]
    m0, m = meshed(k, 1.0, 1.0), meshed(k, a, b)
    rec.step(2)
    key = 'mesh:%s:%d' % (k, u)
    rec.true(key + ':names', list(m0.nodes) == list(m.nodes) and list(m0.quads) == list(m.quads) and list(m0.plates) == list(m.plates),
             'meshes differ: %d and %d nodes, %d and %d elements' % (len(m0.nodes), len(m.nodes), len(m0.quads) + len(m0.plates), len(m.quads) + len(m.plates)))
    if rec.failures:
        return
    for n, nd in m.nodes.items():
        p = m0.nodes[n]
        rec.close('%s:%s' % (key, n), np.array([nd.X, nd.Y, nd.Z])/a, [p.X, p.Y, p.Z], 1e-9, 10.0, 'node %s of the mesh' % n)
    for els in ('quads', 'plates'):
        for n, e in getattr(m, els).items():
            e0 = getattr(m0, els)[n]
            rec.true('%s:%s' % (key, n), [x.name for x in (e.i_node, e.j_node, e.m_node, e.n_node)] == [x.name for x in (e0.i_node, e0.j_node, e0.m_node, e0.n_node)],
                     'element %s has other nodes' % n)
    for x, f, p in ((m0, 1.0, 1.0), (m, b, b/a**2)):
        for i, nd in enumerate(x.nodes.values()):
            if i % 5 == 0:
                x.def_support(nd.name, True, True, True, True, True, True)
        names = list(x.nodes)
        x.add_node_load(names[len(names)//2], 'FX', 2.0*f, 'K')
        x.add_node_load(names[-2], 'FZ', -1.0*f, 'K')
        for n in x.quads:
            x.add_quad_surface_pressure(n, .02*p, 'K')
        for n in x.plates:
            x.add_plate_surface_pressure(n, .02*p, 'K')
        x.add_load_combo('A', {'K': 1.0})
        ops.apply_real(x, ['analyze', {}])
    compare(rec, key, reported(m, 'A', a, b), reported(m0, 'A'), 'mesh %s, lengths x %g, forces x %g' % (k, a, b), tol=1e-5)
    # duplicates are found in the units of the model
    for x, f in ((m0, 1.0), (m, a)):
        ops.apply_real(x, ['node', 'DUP', x.nodes[names[0]].X + 5e-4*f, x.nodes[names[0]].Y, x.nodes[names[0]].Z])
        ops.apply_real(x, ['node', 'FAR', x.nodes[names[1]].X, x.nodes[names[1]].Y + 2e-3*f, x.nodes[names[1]].Z])
        ops.apply_real(x, ['merge', 1e-3*f])
    rec.true(key + ':merge', set(m.nodes) == set(m0.nodes), 'merging with the converted tolerance left %s and %s' % (sorted(set(m.nodes) - set(m0.nodes)), sorted(set(m0.nodes) - set(m.nodes))))
    rec.state(key)
    rec.outcome(key)


def stab(case, rec):
    """what is refused in one system of units is refused in all, what is solved is solved"""
    from . import p22
    _, f, args, u = case
    a, b = UNITS[u]
    if f == 'tcx':
        hs = list(oneline(args[0]))
    else:
        hs = []
        old = p22.judge
        p22.judge = lambda rec_, key, h, opts, *q, **kw: hs.append((key, h))
        try:
            dict(truss=p22.truss, pin=p22.pin, gerber=p22.gerber, supc=p22.supc, relc=p22.relc, shell=p22.shell)[f]([f] + args, Quiet())
        finally:
            p22.judge = old
    for i, (key, h) in enumerate(hs):
        if f in ('supc', 'relc', 'gerber') and (i + u) % 4:
            continue
        r = ref.Ref()
        for op in h:
            r.apply(op)
        un = None
        try:
            r.solve('C')
        except ref.Unstable as x:
            un = x
            ex, gap = x.excitation()
            if ex < 1e-5 or gap < 1e-9:
                continue          # unstable in a way the loads do not excite: may be refused or solved
        e = ('analyze', 'analyze_linear')[i % 2]
        key = 'stab:%s:%d:%s' % (key, u, e)
        rec.history = convert(h, a, b)
        m = ops.build(rec.history)
        rec.step()
        try:
            ops.apply_real(m, [e, {}])
            got = None
        except Exception as x:
            got = x
        rec.trace()
        rec.state(key)
        rec.outcome((key, un is None, got is None))
        if un is not None:
            rec.true(key + ':solved', got is not None, 'lengths x %g, forces x %g: %s solved a structure its loads move without resistance' % (a, b, e))
        elif rec.true(key + ':refused', got is None, 'lengths x %g, forces x %g: %s refused a stable structure: %r' % (a, b, e, got)):
            compare(rec, key, reported(m, 'C', a, b), answers(h, e)['C'], 'lengths x %g, forces x %g, %s' % (a, b, e))


class Quiet:
    def __getattr__(self, k):
        return lambda *a, **kw: None


def oneline(i):
    """soft and stiff springs next to one another"""
    for ks in (1e-4, 1.0, 1e4):
        h = [['node', 'A', 0, 0, 0], ['node', 'B', 5, 0, 0], ['node', 'C', 11, 0, 0], sup('A', '111111'), sup('B', '011111'), sup('C', '011111'),
             ['spring', 'S1', 'A', 'B', ks], ['spring', 'S2', 'B', 'C', 2*ks]]
        if i & 1:
            h += [['sspring', 'C', 'DX', ks]]
        if i & 2:
            h += [sup('B', '001111'), ['sspring', 'B', 'DY', 3*ks]]
        if i & 4:
            h += [sup('C', '011110'), ['sspring', 'C', 'RZ', 50*ks], ['nload', 'C', 'MZ', ks, 'K']]
        h += [['nload', 'C', 'FX', ks, 'K'], ['nload', 'B', 'FX', -.3*ks, 'K'], ['combo', 'C', {'K': .01}]]
        yield 'line:%d:%g' % (i, ks), h


def run(case, rec):
    dict(frame=frame, pair=pair, near=near, oneway=oneway, mesh=mesh, stab=stab)[case[0]](case, rec)
