"""What the renderer puts into its scene is the model, its loads and its results."""
import itertools

import numpy as np

from .. import draw, frames, ops, ref
from ..common import DIST_DIRS, MAT, NODE_DIRS, ORIENT, PT_DIRS, member, prod, rel, sup
from . import p30

ID = 'P31'
TITLE = 'Renderings show the model, its loads and its results'
RULE = ('every load kind x member orientation x sign x combination factor or load case, pairs of loads of one kind in one or two places, every set of supports at a node, every '
        'structure and (thorough: every deviation of it) undeformed and deformed in every combination, tension/compression-only structures, patches of plates and quads in every '
        'plane x contour, every sequence of up to three (thorough: four) changes of settings against a fresh renderer; the whole scene is read back')
ASSUMPTIONS = ['the scene handed to VTK is what a window would show (nothing is displayed: there is no screen)', 'symbols are recognised by their shape: arrow heads are '
               'cones, a load label is a number']
BACKEND = draw.PyVista
ANN = .4
MODES = ('1.0', '-1.5', '0.5', 'case')
SETTINGS = [('deformed_shape', True), ('deformed_shape', False), ('deformed_scale', 7.), ('combo_name', 'B'), ('combo_name', 'A'), ('case', 'K0'),
            ('color_map', 'Mx'), ('color_map', None), ('render_nodes', False), ('render_loads', False), ('labels', False), ('annotation_size', .2), ('*', 'load'), ('*', 'node')]
SOFT = ['S', .6, 1.5, .4, 10.]
TC = ('tension', 'compression', 'spring', 'tension-sub')
COLORS = ('dz', 'Mx', 'My', 'Mxy', 'Qx', 'Qy', 'Sx', 'Sy', 'Txy')


def cases(tier):
    th = tier != 'quick'
    out = []
    os_ = list(ORIENT) if th else ['+X', '-Y', '+Y', '-Z', 'XYZ', '-X-YZ', 'X-Z']
    for o in os_:
        for rot in (0, 30) if th else (0,) if o != 'XYZ' else (0, 30):
            out.append(['load', o, rot])
    out += [['shellload', k, pl] for k in ('quad', 'plate') for pl in ('XY', 'YZ', 'XZ', 'SK')]
    out += [['pair', a, b] for a, b in itertools.combinations_with_replacement(('node', 'pt', 'dist', 'nodeM', 'ptM', 'quad', 'plate'), 2)]
    out += [['supports', ''.join(p)] for p in itertools.product('01', repeat=2)]
    for s in frames.ALL:
        out.append(['frame', s, []])
        for i, v in enumerate(frames.variants(s, 1)[1:]):
            if th or i % 12 == len(s) % 12:
                out.append(['frame', s, v])
    out += [['tc', t] for t in TC]
    for k in ('quad', 'plate', 'both'):
        for pl in ('XY', 'YZ', 'XZ', 'SK'):
            out += [['contour', k, pl, n] for n in (range(4) if th else (1, 2))]
    for a in range(len(SETTINGS)):
        out.append(['settings', [a], 3 if th else 2])
    if not th:
        for a, b in itertools.product((0, 3, 5, 12), (5, 6, 10, 13)):
            out.append(['settings', [a, b], 1])
    out += [['before', s] for s in ('portal', 'mixed', 'springs', 'space')]
    return out


# -- expectations ---------------------------------------------------------------------------------
def pos(n):
    return np.array([n.X, n.Y, n.Z], float)


def local_axes(m, mem):
    i, j = pos(mem.i_node), pos(mem.j_node)
    aux = mem.auxNode
    return ref.local_axes(i, j, None if aux is None else pos(aux))


def sig3(a, b):
    return abs(a - b) <= .0051*abs(b) + 1e-12


class Arrow:
    def __init__(self, tip, d, length, tail):
        self.tip, self.d, self.length, self.tail = tip, d, length, tail


def arrows(d):
    """straight arrows: an arrow head and the line ending at its tip; and the remaining heads"""
    out, left = [], []
    for b in d.blobs:
        c = draw.cone(b)
        if c is None:
            continue
        a, u, h, r = c
        best = None
        for p, q in d.segs:
            for s, e in ((p, q), (q, p)):
                if np.linalg.norm(s - a) < 1e-4*(1 + np.abs(a).max()):
                    t = a - e
                    n = np.linalg.norm(t)
                    if n > h*.5 and np.linalg.norm(t/n - u) < 2e-3 and (best is None or n > best[0]):
                        best = (n, e)
        if best:
            out.append(Arrow(a, u, best[0], best[1]))
        else:
            left.append((c, np.mean(b, axis=0)))
    return out, left


def unit(v):
    return np.asarray(v, float)/np.linalg.norm(v)


GLOB = {'X': np.array([1., 0, 0]), 'Y': np.array([0, 1., 0]), 'Z': np.array([0, 0, 1.])}


def wanted_loads(m, factors):
    """[(kind, positions, axis, values)]"""
    out = []
    for n in m.nodes.values():
        for d, v, c in n.NodeLoads:
            if c in factors:
                out.append(('M' if d[0] == 'M' else 'F', [pos(n)], GLOB[d[1]], [v*factors[c]]))
    for mem in m.members.values():
        T = local_axes(m, mem)
        i = pos(mem.i_node)
        ax = dict(GLOB, x=T[0], y=T[1], z=T[2])
        for d, v, x, c in mem.PtLoads:
            if c in factors:
                out.append(('M' if d[0] == 'M' else 'F', [i + x*T[0]], ax[d[1]], [v*factors[c]]))
        for d, w1, w2, x1, x2, c in mem.DistLoads:
            if c in factors:
                out.append(('D', [i + x1*T[0], i + x2*T[0]], ax[d[1]], [w1*factors[c], w2*factors[c]]))
    for e in list(m.plates.values()) + list(m.quads.values()):
        P = [pos(x) for x in (e.i_node, e.j_node, e.m_node, e.n_node)]
        n = unit(np.cross(P[1] - P[0], P[3] - P[0]))
        for p, c in e.pressures:
            if c in factors:
                out.append(('A', P, n, [p*factors[c]]))
    return out


def check_loads(rec, key, m, factors, base, full, ann):
    """what switching the loads on adds to the scene"""
    extra = full.minus(base)
    arr, heads = arrows(extra)
    labels = [(t, p) for t, p in extra.labels]
    scale = {}
    loads = wanted_loads(m, factors)
    free = list(arr)
    nums = []
    for t, p in labels:
        try:
            nums.append([float(t), p])
        except ValueError:
            rec.true(key + ':label', False, 'a load is labelled %r' % t)

    def take(p, d, what, must=True):
        """the arrow that ends at p pointing along d"""
        best, many = None, 0
        for a in arr:
            back = p - a.tip
            s = float(back @ d)
            many += np.linalg.norm(a.d - d) < 5e-3 and -1e-3*ann < s < 1.05*ann and np.linalg.norm(back - s*d) < 1e-3*(ann + np.abs(p).max()*.01)
        for a in free:
            back = p - a.tip
            s = float(back @ d)
            if np.linalg.norm(a.d - d) < 5e-3 and -1e-3*ann < s < 1.05*ann and np.linalg.norm(back - s*d) < 1e-3*(ann + np.abs(p).max()*.01):
                if best is None or s < best[0] - 1e-9:
                    best = (s, a)
        if best is None:
            if must:
                rec.true(key + ':' + what, False, 'no arrow points along %s to %s (arrows: %s)' % (np.round(d, 3), np.round(p, 3), [(np.round(a.tip, 2).tolist(), np.round(a.d, 2).tolist()) for a in arr][:6]))
            return None
        free.remove(best[1])
        return best[1] if many == 1 else None         # several arrows at one place: whose length is whose is open

    def label(v, ps, what, far=6.6):
        if abs(v) < 1e-12:
            return
        ok = [x for x in nums if sig3(x[0], v) and min(np.linalg.norm(x[1] - p) for p in ps) < far*ann]
        if rec.true(key + ':' + what + ':label', bool(ok), 'no label %.6g near %s (labels %s)' % (v, np.round(ps[0], 3), [(x[0], np.round(x[1], 2).tolist()) for x in nums][:6])):
            best = min(ok, key=lambda x: min(np.linalg.norm(x[1] - p) for p in ps))
            nums[:] = [x for x in nums if x is not best]

    # larger loads first: a load of several arrows takes the arrows that fit it
    order = sorted(loads, key=lambda l: 'FADM'.index(l[0]))
    dist = []
    for kind, P, ax, V in order:
        if kind in 'FA':
            v = V[0]
            if abs(v) < 1e-12:
                continue
            for p in P:
                a = take(p, np.sign(v)*ax, 'force' if kind == 'F' else 'pressure')
                if a is not None:
                    scale.setdefault(kind, []).append((a.length, abs(v)))
            label(v, P, 'force' if kind == 'F' else 'pressure')
        elif kind == 'M':
            v = V[0]
            if abs(v) < 1e-12:
                continue
            best = None
            for h in heads:
                (apex, u, hh, r), c = h
                arm = c - P[0]
                rad = np.linalg.norm(arm - (arm @ ax)*ax)
                if rad > 1e-6 and rad < 4*ann and abs(arm @ ax) < .2*rad and np.sign(v)*(np.cross(arm, u) @ ax) > .7*rad:
                    if best is None or abs(rad/abs(v) - best[2]) < 1e-9 or rad < best[0]:
                        best = (rad, h, rad/abs(v))
            if rec.true(key + ':moment', best is not None, 'no arrow turns about %s at %s (%d heads)' % (np.round(np.sign(v)*ax, 3), np.round(P[0], 3), len(heads))):
                heads = [h for h in heads if h is not best[1]]
                scale.setdefault('M', []).append((best[0], abs(v)))
            label(v, P, 'moment')
        else:
            if max(map(abs, V)) < 1e-12:
                continue
            dist.append((P, ax, V))
            for p, v in zip(P, V):
                if abs(v) > 1e-3*max(map(abs, V)):
                    a = take(p, np.sign(v)*ax, 'line load')
                    if a is not None:
                        scale.setdefault('D', []).append((a.length, abs(v)))
                label(v, P, 'line load')
    # arrows between the ends of a distributed load
    for a in free:
        ok = False
        for P, ax, V in dist:
            t = unit(P[1] - P[0])
            x, L = float((a.tip - P[0]) @ t), np.linalg.norm(P[1] - P[0])
            w = V[0] + (V[1] - V[0])*x/L
            if -1e-3*L < x < L*1.001 and np.linalg.norm(a.tip - P[0] - x*t) < 1e-3*(1 + L) and np.linalg.norm(a.d - np.sign(w)*ax) < 5e-3:
                ok = True
                if abs(w) > 1e-3*max(map(abs, V)):
                    scale.setdefault('D', []).append((a.length, abs(w)))
                break
        rec.true(key + ':stray', ok, 'an arrow to %s along %s stands for no load' % (np.round(a.tip, 3), np.round(a.d, 3)))
    rec.true(key + ':stray', not heads, '%d arrow heads stand for no load' % len(heads))
    rec.true(key + ':stray', all(abs(x[0]) < 1e-12 for x in nums), 'labels %s stand for no load' % [x[0] for x in nums])
    for kind, ls in scale.items():
        k = [l/v for l, v in ls]
        tol = .02 if kind == 'M' else 2e-3
        rec.true(key + ':scale:' + kind, max(k) - min(k) <= tol*max(k), 'arrows are not to scale: (length, value) %s' % [(round(float(l), 4), round(float(v), 4)) for l, v in ls][:6])
    rec.step()


# -- single scenes --------------------------------------------------------------------------------
def renderer(m, **kw):
    r = BACKEND(m)
    r.set(annotation_size=ANN)
    for k, v in kw.items():
        r.set(**{k: v})
    return r


def result_state(m):
    return {c: (ops.disp(m, c), ops.reac(m, c)) for c in m.load_combos if all(c in n.DX and c in n.RxnFX for n in m.nodes.values())}


def unchanged(a, b):
    return list(a) == list(b) and all(np.array_equal(x[n], y[n]) for c in a for x, y in zip(a[c], b[c]) for n in x)


def at_labels(rec, key, d, want, ann, reach):
    """every name stands at its place: want {(name): position}; the drawing has no other labels"""
    left = list(d.labels)
    for name, p in want:
        ok = [x for x in left if x[0] == name and np.linalg.norm(x[1] - p) < reach*ann + 1e-5*(1 + np.abs(p).max())]
        if rec.true(key + ':label', bool(ok), 'label %r is not at %s (%s)' % (name, np.round(p, 3), [(t, np.round(q, 2).tolist()) for t, q in d.labels][:8])):
            left = [x for x in left if x is not ok[0]]
    rec.true(key + ':label', not left, 'labels that name nothing: %s' % [x[0] for x in left][:6])


def names(m, nodes=True):
    out = [(n.name, pos(n)) for n in m.nodes.values()] if nodes else []
    out += [(x.name, (pos(x.i_node) + pos(x.j_node))/2) for x in list(m.springs.values()) + list(m.members.values())]
    return out


def on(p, a, b):
    """distance of a point from a segment"""
    t = b - a
    n = t @ t
    s = 0. if n == 0 else min(1., max(0., float((p - a) @ t)/n))
    return np.linalg.norm(p - a - s*t)


def lines(rec, key, m, d):
    """with nodes and loads off the lines are the members and the springs"""
    left = list(d.segs)
    tol = 1e-5*(1 + max(np.abs(pos(n)).max() for n in m.nodes.values()))
    for x in list(m.members.values()) + list(m.springs.values()):
        a, b = pos(x.i_node), pos(x.j_node)
        n = [s for s in left if on(s[0], a, b) < tol and on(s[1], a, b) < tol and np.linalg.norm(s[0] - s[1]) > 0]
        # the pieces between the ends cover the whole line
        cov = sum(np.linalg.norm(s[0] - s[1]) for s in n)
        L = np.linalg.norm(a - b)
        if rec.true(key + ':line', cov > L*(1 - 1e-4), '%s is drawn over %.4g of its length %.4g' % (x.name, cov, L)):
            one = [s for s in n if abs(np.linalg.norm(s[0] - s[1]) - L) < 1e-4*L][:1] or n
            left = [s for s in left if not any(s is y for y in one)]
    rec.true(key + ':line', not left, 'lines that are no member and no spring: %s' % [(np.round(a, 3).tolist(), np.round(b, 3).tolist()) for a, b in left[:3]])


def curve(mem, combo, scale, xs):
    T = local_axes(None, mem)
    i = pos(mem.i_node)
    return [i + (x + scale*float(mem.deflection('dx', x, combo)))*T[0] + scale*float(mem.deflection('dy', x, combo))*T[1] + scale*float(mem.deflection('dz', x, combo))*T[2] for x in xs]


def moved(n, combo, scale):
    return pos(n) + scale*np.array([n.DX[combo], n.DY[combo], n.DZ[combo]], float)


def deformed(rec, key, m, combo, scale, base, d):
    """what switching the deformed shape on adds to the scene"""
    extra = d.minus(base)
    used = [False]*len(extra.segs)
    A = np.array([s[0] for s in extra.segs]).reshape(-1, 3)
    B = np.array([s[1] for s in extra.segs]).reshape(-1, 3)

    def dist(p):
        if not len(A):
            return np.array([np.inf])
        t = B - A
        n = (t*t).sum(axis=1)
        s = np.clip(((p - A)*t).sum(axis=1)/np.where(n == 0, 1, n), 0, 1)
        return np.linalg.norm(p - A - s[:, None]*t, axis=1)
    for x in list(m.members.values()) + list(m.springs.values()):
        if not x.active.get(combo, True):
            continue
        if x.name in m.members and m.members[x.name] is x:
            L = x.L()
            C = curve(x, combo, scale, np.linspace(0, L, 58))
            ch = [p - C[0] - (C[-1] - C[0])*k/57 for k, p in enumerate(C)]
            amp = max(np.linalg.norm(c) for c in ch)
            # kinks and jumps (loads, released ends) may be cut off between two drawn points
            tol = .03*amp + 1e-4*(L + np.abs(C).max())
            if any(x.Releases[k] for k in (0, 1, 2, 6, 7, 8)) or any(a.Releases[k] for a in x.sub_members.values() for k in (0, 1, 2, 6, 7, 8)):
                tol += 1.1*max(np.linalg.norm(a - b) for a, b in zip(C, C[1:]))
        else:
            a, b = moved(x.i_node, combo, scale), moved(x.j_node, combo, scale)
            C = [a + (b - a)*k/7 for k in range(8)]
            tol = 1e-4*(1 + np.abs(C).max())
        far = max(dist(p).min() for p in C)
        rec.true(key + ':deformed', far <= tol, '%s in %s: the drawn shape is %.4g away from the displaced one (tolerance %.3g)' % (x.name, combo, far, tol))
        for k in range(len(used)):
            if not used[k]:
                used[k] = all(min(on(p, a, b) for a, b in zip(C, C[1:])) <= 2*tol for p in (extra.segs[k][0], extra.segs[k][1]))
    rec.true(key + ':deformed', all(used), '%d of %d added lines are no displaced member or spring in %s' % (used.count(False), len(used), combo))
    spots = [moved(n, combo, scale) for n in m.nodes.values()]
    for b in extra.blobs:
        if len(b) > 8:
            c = np.mean(b, axis=0)
            rec.true(key + ':deformed', min(np.linalg.norm(c - s) for s in spots) < .05*ANN + 1e-4*(1 + np.abs(c).max()), 'a ball at %s is at no displaced node' % np.round(c, 3))
    rec.step()


def shells(rec, key, m, combo, scale, d, values=None):
    """every plate and quad is a face between its (displaced) corners carrying the contour values"""
    left = [f for f in d.faces if len(f[0]) == 4]
    for e in list(m.plates.values()) + list(m.quads.values()):
        N = (e.i_node, e.j_node, e.m_node, e.n_node)
        P = [moved(n, combo, scale) if scale else pos(n) for n in N]
        tol = 1e-4*(1 + np.abs(P).max())
        hit = None
        for f in left:
            for k in range(4):
                for s in (1, -1):
                    idx = [(k + s*i) % 4 for i in range(4)]
                    if all(np.linalg.norm(f[0][a] - p) < tol for a, p in zip(idx, P)) and (values is None) <= True:
                        hit = (f, idx)
                        break
                if hit:
                    break
            if hit and (values is None or hit[0][1] is not None):
                break
        if not rec.true(key + ':face', hit is not None, '%s is not drawn at %s' % (e.name, np.round(P, 3).tolist())):
            continue
        if values is not None:
            got = hit[0][1]
            if rec.true(key + ':contour', got is not None, '%s carries no contour values' % e.name):
                big = max(abs(v) for v in values.values()) or 1.
                g = [got[a] for a in hit[1]]
                rec.true(key + ':contour', all(abs(a - values[n.name]) <= 1e-4*big for a, n in zip(g, N)), '%s: contour %s, average of the elements %s' % (
                    e.name, np.round(g, 6), [round(values[n.name], 6) for n in N]))


def average(m, what, combo):
    """corner results of the elements, averaged at every node"""
    out = {}
    for e in list(m.plates.values()) + list(m.quads.values()):
        N = (e.i_node, e.j_node, e.m_node, e.n_node)
        P = [pos(x) for x in N]
        if what == 'dz':
            n = unit(np.cross(P[1] - P[0], P[3] - P[0]))
            V = [float(n @ (moved(x, combo, 1.) - pos(x))) for x in N]
        else:
            w, h = np.linalg.norm(P[1] - P[0]), np.linalg.norm(P[3] - P[0])
            pts = ((-1, -1), (1, -1), (1, 1), (-1, 1)) if e.name in m.quads and m.quads[e.name] is e else ((0, 0), (w, 0), (w, h), (0, h))
            f, k = {'M': ('moment', {'Mx': 0, 'My': 1, 'Mxy': 2}), 'Q': ('shear', {'Qx': 0, 'Qy': 1}), 'S': ('membrane', {'Sx': 0, 'Sy': 1}), 'T': ('membrane', {'Txy': 2})}[what[0]]
            V = [p30.num(np.ravel(getattr(e, f)(a, b, True, combo))[k[what]]) for a, b in pts]
        for x, v in zip(N, V):
            out.setdefault(x.name, []).append(v)
    return {k: sum(v)/len(v) for k, v in out.items()}


def scene(rec, key, m, combos, deform=True):
    """one model: plain, with every combination's loads and shape"""
    before = result_state(m)
    r = renderer(m, render_nodes=False, render_loads=False)
    plain = r.draw()
    lines(rec, key, m, plain)
    shells(rec, key, m, None, 0, plain)
    r.set(render_nodes=True)
    d = r.draw()
    at_labels(rec, key, d, names(m) + aux_names(m, d), ANN, 1.)
    r.set(labels=False)
    rec.true(key + ':labels off', not r.draw().labels, 'labels are switched off but drawn')
    r.set(labels=True)
    rec.step(3)
    for c in combos:
        r.set(combo_name=c, render_loads=True, render_nodes=False)
        full = r.draw()
        check_loads(rec, '%s:%s' % (key, 'loads'), m, m.load_combos[c].factors, plain, full, ANN)
        if deform:
            for s in (20., 150.):
                r.set(render_loads=False, deformed_shape=True, deformed_scale=s)
                d = r.draw()
                deformed(rec, key, m, c, s, plain, d)
                shells(rec, key, m, c, s, d)
            r.set(deformed_shape=False)
    rec.true(key + ':results', unchanged(before, result_state(m)), 'drawing changed results')
    r.close()


def aux_names(m, d):
    """auxiliary nodes may be named in the drawing"""
    return [(n.name, pos(n)) for n in m.aux_nodes.values() if any(t == n.name for t, _ in d.labels)]


def frame(case, rec):
    h, loads = frames.history(case[1], case[2])
    L = [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)]
    h = h + L + [['combo', 'A', {'K0': 1.0, 'K1': -.6}], ['combo', 'Combo 1', {'K1': .5}]]
    r = ref.Ref()
    m = ops.new_model()
    rec.history = h
    for op in h:
        ops.apply_real(m, op)
        r.apply(op)
    rec.trace()
    try:
        for c in ('A', 'Combo 1'):
            r.solve(c)
    except ref.Unstable:
        rec.outcome('unstable')
        scene(rec, 'frame', m, ['A', 'Combo 1'], False)
        return
    ops.apply_real(m, ['analyze', {}])
    scene(rec, 'frame', m, ['A', 'Combo 1'])


def load(case, rec):
    """every kind of load on one member, one at a time"""
    _, o, rot = case
    u = ORIENT[o]
    kinds = [['nload', 'I', d] for d in NODE_DIRS] + [['ptload', 'M', d] for d in PT_DIRS] + [['dload', 'M', d] for d in DIST_DIRS]
    h = [MAT, frames.n('I', 1, 2, 3), frames.n('J', *(c + 5.*v for c, v in zip((1, 2, 3), u)))]
    if rot:
        z = unit(np.cross(u, (.3, .5, -.7)))
        h.append(['aux', 'AX'] + [float(v) for v in np.array([1, 2, 3.]) + 4*z + np.array(u)])
    h += [member('M', 'I', 'J', **({'aux_node': 'AX'} if rot else {})), sup('I', '111111')]
    m0 = ops.build(h)
    r0 = renderer(m0, render_loads=False, render_nodes=False)
    plain = r0.draw()
    r0.close()
    for k, sign, mode in prod(kinds, (1, -1, 0), MODES):
        key = 'load:%s:%s' % (k[0], k[2])
        v = 2.5*sign
        vs = {'nload': [[v]], 'ptload': [[v, 0.], [v, 3.3]], 'dload': [[v, v, None, None], [v, 0., 1.2, 4.], [-.4*v, v, .5, 5.], [0., v, 0., 2.]]}[k[0]]
        for w in vs:
            op = k + w + ['K']
            m = ops.build(h + [op, ['combo', 'A', {'K': 1. if mode == 'case' else float(mode)}], ['combo', 'Z', {'other': 2.}], ['combo', 'O', {'K': 0.}]])
            rec.history = [case, op, mode]
            rec.state(repr(rec.history))
            r = renderer(m, render_nodes=False, **({'case': 'K'} if mode == 'case' else {'combo_name': 'A'}))
            f = {'K': 1. if mode == 'case' else float(mode)}
            try:
                check_loads(rec, key, m, f, plain, r.draw(), ANN)
                for c in ('Z', 'O') if mode == '1.0' else ():
                    r.set(combo_name=c)
                    check_loads(rec, key, m, {} if c == 'Z' else {'K': 0.}, plain, r.draw(), ANN)
            except Exception as e:
                rec.fail(key + ':error', '%s of %s (%s) cannot be drawn: %r' % (k, w, mode, e))
            r.close()
    rec.trace()


def shellload(case, rec):
    for n, sign, mode in prod(range(4), (1, -1, 0), MODES):
        m = p30.patch(case[1], case[2], n)
        for e in list(m.plates.values()) + list(m.quads.values()):
            e.pressures.clear()
        for x in m.nodes.values():
            x.NodeLoads.clear()
        e = (list(m.plates) + list(m.quads))[n % 3]
        (m.add_plate_surface_pressure if case[1] == 'plate' else m.add_quad_surface_pressure)(e, .2*sign, 'K')
        f = 1. if mode == 'case' else float(mode)
        m.add_load_combo('L', {'K': f})
        rec.history = [case, n, sign, mode]
        rec.state(repr(rec.history))
        r = renderer(m, render_nodes=False, render_loads=False)
        plain = r.draw()
        r.set(render_loads=True, **({'case': 'K'} if mode == 'case' else {'combo_name': 'L'}))
        try:
            check_loads(rec, 'pressure', m, {'K': f}, plain, r.draw(), ANN)
        except Exception as e:
            rec.fail('pressure:error', 'a pressure of %g (%s) cannot be drawn: %r' % (.2*sign, mode, e))
        r.close()
    rec.trace()


def pair(case, rec):
    """two loads of different size, alone and together, in one or two load cases"""
    for (v1, v2), (f1, f2), same in prod(((2., 5.), (-4., 1.5), (3., 0.)), ((1., 1.), (-2., .5), (1., 0.)), (0, 1)):
        m = p30.patch('both', 'SK', 0)
        for e in list(m.plates.values()) + list(m.quads.values()):
            e.pressures.clear()
        for x in m.nodes.values():
            x.NodeLoads.clear()
        for op in [MAT, frames.n('I', -6, 1, 2), frames.n('J', -3, 4, 3), member('M', 'I', 'J')]:
            ops.apply_real(m, op)
        for k, (what, v) in enumerate(zip(case[1:], (v1, v2))):
            c = 'K0' if same else 'K%d' % k
            two = k and case[1] == case[2]
            op = {'node': ['nload', 'N3%d' % k, 'FX' if k else 'FZ', v, c], 'nodeM': ['nload', 'N0%d' % k, 'MY' if k else 'MX', v, c],
                  'pt': ['ptload', 'M', 'Fy' if k else 'FZ', v, 1.5 + k, c], 'ptM': ['ptload', 'M', 'Mz' if k else 'Mx', v, 1.5 + k, c],
                  'dist': ['dload', 'M', 'Fz' if k else 'Fy', v, .5*v, .5, 4., c],
                  'quad': ['qpress', list(m.quads)[0], v, c], 'plate': ['ppress', list(m.plates)[1 if two else 0], v, c]}[what]
            ops.apply_real(m, op)
        m.add_load_combo('L', {'K0': f1, 'K1': f2})
        rec.history = [case, v1, v2, f1, f2, same]
        rec.state(repr(rec.history))
        r = renderer(m, render_nodes=False, render_loads=False)
        plain = r.draw()
        r.set(render_loads=True)
        for kw, f in (({'combo_name': 'L'}, {'K0': f1, 'K1': f2}), ({'case': 'K0'}, {'K0': 1.}), ({'case': 'K1'}, {'K1': 1.}), ({'case': 'none'}, {})):
            try:
                r.set(**kw)
                check_loads(rec, 'pair:%s' % list(kw)[0], m, f, plain, r.draw(), ANN)
            except Exception as e:
                rec.fail('pair:error', 'loads %s (%s) cannot be drawn: %r' % (case[1:], kw, e))
        r.close()
    rec.trace()


def supports(case, rec):
    """every set of supports: the symbols at a node show which freedoms are held"""
    for rest in itertools.product('01', repeat=4):
        pat = case[1] + ''.join(rest)
        m = ops.build([MAT, frames.n('I', 1, 2, 3), frames.n('J', 9, 3, 1), member('M', 'I', 'J'), sup('I', pat)])
        rec.history = [case, pat]
        rec.state(repr(rec.history))
        r = renderer(m, render_nodes=False, render_loads=False)
        plain = r.draw()
        r.set(render_nodes=True)
        d = r.draw().minus(plain)
        r.close()
        o = np.array([1., 2., 3.])
        near = [b for b in d.blobs if np.linalg.norm(np.mean(b, axis=0) - o) < 4*ANN]
        if pat in ('111111', '111000'):
            big = [b for b in near if (draw.cone(b) is not None) or len(b) == 8 or len(b) == 4]
            rec.true('supports:shown', bool(big) and not [s for s in d.segs if np.linalg.norm(s[0] - o) < 4*ANN], 'support %s is not shown as one symbol' % pat)
            continue
        for k in range(3):
            a = np.zeros(3)
            a[k] = 1.
            ln = [s for s in d.segs if np.linalg.norm(np.cross(s[0] - o, a)) < 1e-4 and np.linalg.norm(np.cross(s[1] - o, a)) < 1e-4]
            cones = [c for c in map(draw.cone, near) if c is not None and abs(abs(c[1] @ a) - 1) < 1e-3 and np.linalg.norm(np.cross(c[0] - o, a)) < 1e-3]
            ends = [b for b in near if draw.cone(b) is None and len(b) in (4, 8) and np.linalg.norm(np.cross(np.mean(b, axis=0) - o, a)) < .4*ANN and abs((np.mean(b, axis=0) - o) @ a) > ANN]
            t, q = pat[k] == '1', pat[3 + k] == '1'
            rec.true('supports:line', bool(ln) == (t or q), 'support %s: %d lines along %s' % (pat, len(ln), 'XYZ'[k]))
            rec.true('supports:line', all(np.linalg.norm((s[0] + s[1])/2 - o) < .1*ANN for s in ln), 'support %s: a line along %s is not centred on the node' % (pat, 'XYZ'[k]))
            rec.true('supports:translation', (len(cones) >= 2) == t and bool(cones) == t, 'support %s: %d cones along %s' % (pat, len(cones), 'XYZ'[k]))
            rec.true('supports:rotation', bool(ends) == q, 'support %s: %d blocks on %s' % (pat, len(ends), 'XYZ'[k]))
            if t:
                rec.true('supports:translation', all((o - c[0]) @ c[1] > 0 for c in cones) and len({np.sign(c[1][k]) for c in cones}) == 2, 'support %s: the cones do not hold the node along %s' % (pat, 'XYZ'[k]))
            if q:
                rec.true('supports:rotation', len({np.sign((np.mean(b, axis=0) - o)[k]) for b in ends}) == 2, 'support %s: blocks on one side of %s' % (pat, 'XYZ'[k]))
        rec.step()
    rec.trace()


def tc(case, rec):
    """braces and springs that dropped out of a combination are not drawn in its displaced shape"""
    t = case[1]
    h = [MAT, frames.n('A', 0, 0, 0), frames.n('B', 0, 4, 0), frames.n('C', 5, 4, 0), frames.n('D', 5, 0, 0)]
    h += [member('M1', 'A', 'B', SOFT), member('M2', 'B', 'C', SOFT), member('M3', 'D', 'C', SOFT), sup('A', '111111'), sup('D', '111111')]
    if t == 'tension-sub':
        h += [frames.n('E', 1.25, 1, 0), member('X', 'E', 'B', SOFT)]
    if t == 'spring':
        h += [['spring', 'B1', 'A', 'C', 30., {'tension_only': True}], ['spring', 'B2', 'B', 'D', 30., {'comp_only': True}]]
    else:
        kw = {'tension_only': True} if t.startswith('tension') else {'comp_only': True}
        h += [member('B1', 'A', 'C', **kw), member('B2', 'B', 'D', **kw)]
        h += [rel('B1', '000011000011'), rel('B2', '000011000011')]
    h += [['nload', 'B', 'FX', 6., 'K'], ['combo', 'P', {'K': 1.}], ['combo', 'N', {'K': -1.}], ['combo', 'Combo 1', {'K': .1}]]
    rec.history = h
    m = ops.build(h)
    ops.apply_real(m, ['analyze', {}])
    rec.trace()
    act = {c: [x.active[c] for x in list(m.members.values()) + list(m.springs.values())] for c in m.load_combos}
    rec.true('tc:some', act['P'] != act['N'], 'nothing dropped out: %s' % act)
    scene(rec, 'tc', m, ['P', 'N', 'Combo 1'])


def contour(case, rec):
    m = p30.patch(*case[1:])
    rec.history = case
    ops.apply_real(m, ['analyze', {}])
    before = result_state(m)
    scene(rec, 'shell', m, list(m.load_combos))
    r = renderer(m, render_nodes=False, render_loads=False)
    for c in m.load_combos:
        for w in COLORS:
            rec.state(repr(rec.history))
            r.set(color_map=w, combo_name=c, deformed_shape=False)
            try:
                shells(rec, 'contour:' + w, m, c, 0, r.draw(), average(m, w, c))
            except Exception as e:
                rec.fail('contour:%s:error' % w, 'contours of %s in %s cannot be drawn: %r' % (w, c, e))
                continue
        try:
            r.set(deformed_shape=True, deformed_scale=40., scalar_bar=True)
            shells(rec, 'contour:' + w, m, c, 40., r.draw(), average(m, w, c))
        except Exception as e:
            rec.fail('contour:%s:error' % w, 'deformed contours of %s in %s cannot be drawn: %r' % (w, c, e))
        r.set(scalar_bar=False)
    rec.true('contour:results', unchanged(before, result_state(m)), 'drawing changed results')
    r.close()
    rec.trace()


def change(m, what, k):
    if what == 'load':
        m.add_node_load('T', 'FY', 2. + k, 'K0')
        m.add_member_pt_load('C1', 'Fz', 1.5, 2., 'K1')
        ops.apply_real(m, ['analyze', {}])
    else:
        m.add_node('NEW%d' % k, 3. + k, 9., 4.)
        m.add_spring('NS%d' % k, 'NEW%d' % k, 'P7', 12.)
        m.def_support('NEW%d' % k, True, True, True, True, True, True)
        ops.apply_real(m, ['analyze', {}])


def settings(case, rec):
    """after any sequence of changes the scene is the one a fresh renderer draws"""
    _, first, more = case
    key = 'settings'
    for rest in itertools.chain.from_iterable(itertools.product(range(len(SETTINGS)), repeat=k) for k in range(more)):
        seq = list(first) + list(rest)
        h, loads = frames.history('mixed', [])
        m = ops.build(h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)] + [['combo', 'A', {'K0': 1., 'K1': -.6}], ['combo', 'B', {'K1': .5}]])
        ops.apply_real(m, ['analyze', {}])
        rec.history = [SETTINGS[i] for i in seq]
        rec.state(repr(rec.history))
        r = renderer(m, combo_name='A')
        r.draw()
        now = {'annotation_size': ANN, 'combo_name': 'A', 'case': None}
        for n, i in enumerate(seq):
            k, v = SETTINGS[i]
            if k == '*':
                change(m, v, n)
            else:
                r.set(**{k: v})
                now[k] = v
                if k == 'case':
                    now['combo_name'] = None
                if k == 'combo_name':
                    now['case'] = None
            f = BACKEND(m)
            for a, b in sorted(now.items(), key=lambda x: x[0] in ('case', 'combo_name')):
                if a in ('case', 'combo_name') and b is None:
                    continue
                f.set(**{a: b})
            if (now.get('deformed_shape') or now.get('color_map')) and now['case']:
                # no shape without a combination
                if now.get('deformed_shape'):
                    for x in (r, f):
                        try:
                            x.draw()
                            rec.true(key + ':refused', False, 'a displaced shape was drawn for a load case')
                        except Exception:
                            rec.step()
                f.close()
                break
            if n == len(seq) - 1:
                rec.true(key, r.draw().key() == f.draw().key(), 'the scene after %s is not the one a fresh renderer draws' % [SETTINGS[i] for i in seq])
            else:
                r.draw()
            f.close()
            rec.step()
        r.close()
    rec.trace()


def before(case, rec):
    """a model that was never analysed, without and with a combination"""
    h, loads = frames.history(case[1], [])
    m = ops.build(h + [list(l) + ['K'] for l in loads])
    rec.history = case
    r = renderer(m)
    d = r.draw()
    at_labels(rec, 'before', d, names(m) + aux_names(m, d), ANN, 1.)
    r.close()
    m.add_load_combo('X', {'K': -2.})
    scene(rec, 'before', m, ['X'], False)
    # nodes alone, and a model of one member without loads
    for h in ([frames.n('A', 0, 0, 0)], [frames.n('A', 0, 0, 0), frames.n('B', 1, 0, 0), sup('A', '101010')], [MAT, frames.n('A', 0, 0, 0), frames.n('B', 3, 1, 0), member('M', 'A', 'B'), ['combo', 'X', {'K': 1.}]]):
        m = ops.build(h)
        try:
            r = renderer(m, **({'combo_name': 'X'} if len(h) == 5 else {}))
            d = r.draw()
            at_labels(rec, 'before', d, names(m), ANN, 1.)
            r.close()
        except Exception as e:
            rec.fail('before:error', 'a model of %d nodes cannot be drawn: %r' % (len(m.nodes), e))
    rec.trace()


def run(case, rec):
    globals()[case[0]](case, rec)
