"""Shared alphabets and comparison helpers."""
import itertools
import math

import numpy as np

from . import ops, ref

MAT = ['mat', 'S', 29000.0, 11200.0, 0.3, 0.004]
MAT2 = ['mat', 'W', 1600.0, 600.0, 0.2, 0.001]
#            Iy     Iz     J     A
PROPS = ['S', 60.0, 150.0, 25.0, 10.0]
PROPS2 = ['W', 90.0, 40.0, 55.0, 6.0]

ORIENT = {
    '+X': (1, 0, 0), '-X': (-1, 0, 0), '+Y': (0, 1, 0), '-Y': (0, -1, 0), '+Z': (0, 0, 1), '-Z': (0, 0, -1),
    'XY': (.6, .8, 0), '-XY': (-.6, .8, 0), 'X-Y': (.8, -.6, 0), 'YZ': (0, .6, -.8), 'XZ': (.8, 0, .6),
    'X-Z': (-.28, 0, -.96), 'XYZ': (.48, .6, .64), '-X-YZ': (-.64, -.48, .6), '-Y-XZ': (.36, -.8, -.48),
}
PT_DIRS = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
DIST_DIRS = ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ')
NODE_DIRS = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def member(name, i, j, props=PROPS, **kw):
    m, Iy, Iz, J, A = props
    return ['member', name, i, j, m, Iy, Iz, J, A] + ([kw] if kw else [])


def sup(n, pat):
    """pat: string of 6 flags such as '111000'"""
    return ['support', n, [c == '1' for c in pat]]


def rel(m, pat):
    return ['release', m, [c == '1' for c in pat]]


def each_in_own_combo(loads, factor=1.0, extra=()):
    """loads: ops whose last item is the load case slot to fill -> ops with one case + combo per load"""
    out, names = [], []
    for i, l in enumerate(loads):
        out.append(list(l) + ['L%d' % i])
        out.append(['combo', 'C%d' % i, {'L%d' % i: factor}])
        names.append('C%d' % i)
    for n, f in extra:
        out.append(['combo', n, f])
        names.append(n)
    return out, names


def lockstep(rec, history, check_structure=True):
    """Apply a history to the real model and to the reference model; one state per prefix."""
    rec.history = history
    m, r = ops.new_model(), ref.Ref()
    sig = 0
    from .core import h64
    for op in history:
        ops.apply_real(m, op)
        r.apply(op)
        sig = h64(repr((sig, op)))
        rec.states.add(sig)
        rec.step()
    if check_structure:
        same_structure(rec, m, r)
    return m, r


def same_structure(rec, m, r, key='structure'):
    """the registries of the real model describe the same structure as the reference"""
    rec.true(key + ':nodes', {n: (x.X, x.Y, x.Z) for n, x in m.nodes.items()} ==
             {n: x['p'] for n, x in r.nodes.items()}, 'node registry differs: %s' % list(m.nodes))
    rec.true(key + ':members', {n: (x.i_node.name, x.j_node.name) for n, x in m.members.items()} ==
             {n: (x['i'], x['j']) for n, x in r.members.items()}, 'member registry differs')
    rec.true(key + ':springs', {n: (x.i_node.name, x.j_node.name) for n, x in m.springs.items()} ==
             {n: (x['i'], x['j']) for n, x in r.springs.items()}, 'spring registry differs')


def cmp_disp(rec, key, m, sol, combo, tol=1e-6, nodes=None):
    scale_t = max([np.abs(d[:3]).max() for d in sol.D.values()] + [0])
    scale_r = max([np.abs(d[3:]).max() for d in sol.D.values()] + [0])
    st, sr = max(scale_t, scale_r*.1, 1e-9), max(scale_r, scale_t*.1, 1e-9)
    ok = True
    got = ops.disp(m, combo)
    for n, d in sol.D.items():
        if nodes is not None and n not in nodes:
            continue
        ok &= rec.close('%s:disp:%s' % (key, n), got[n][:3], d[:3], tol, st, 'combo %s node %s DX,DY,DZ' % (combo, n))
        ok &= rec.close('%s:rot:%s' % (key, n), got[n][3:], d[3:], tol, sr, 'combo %s node %s RX,RY,RZ' % (combo, n))
    return ok


def cmp_reac(rec, key, m, sol, r, combo, tol=1e-6, fscale=0.0):
    fs = max([np.abs(d[:3]).max() for d in sol.R.values()] + [fscale, sol.fs, 1e-6])
    ms = max([np.abs(d[3:]).max() for d in sol.R.values()] + [fs])
    ok = True
    got = ops.reac(m, combo)
    for n, d in sol.R.items():
        nd = r.nodes[n]
        for k in range(6):
            if nd['sup'][k] or k in nd['spr']:
                ok &= rec.close('%s:reac:%s:%s' % (key, n, ops.RXN[k]), got[n][k], d[k], tol, fs if k < 3 else ms,
                                'combo %s node %s %s' % (combo, n, ops.RXN[k]))
            elif nd['enf'][k] is None:
                ok &= rec.close('%s:noreac:%s:%s' % (key, n, ops.RXN[k]), got[n][k], 0.0, tol, fs if k < 3 else ms,
                                'combo %s unsupported node %s %s' % (combo, n, ops.RXN[k]))
    return ok


MOM = {'Fy': ('shear', 'Fy'), 'Fz': ('shear', 'Fz'), 'Mx': ('torque', None), 'My': ('moment', 'My'),
       'Mz': ('moment', 'Mz'), 'Fx': ('axial', None)}


def query(mem, q, x, combo):
    f, d = MOM[q]
    return getattr(mem, f)(d, x, combo) if d else getattr(mem, f)(x, combo)


def stations(sol, name, n=5):
    """interior stations of a member, away from every break point, plus the breaks themselves"""
    b = sol.breaks(name)
    L = b[-1]
    inner = []
    for lo, hi in zip(b[:-1], b[1:]):
        if hi - lo > 1e-6*L:
            inner += [lo + (hi - lo)*t for t in (.07, .5, .93)]
    return inner, b


def force_scale(sol, name):
    xs, b = stations(sol, name)
    whole = max([np.abs(e.f).max() for l in sol.els.values() for e in l if e.f is not None] + [sol.fs])
    # rounding floor: forces are differences of stiffness times displacement
    kd = max([np.abs(e.kk).max()*np.abs(e.d).max() for l in sol.els.values() for e in l if e.f is not None] + [0])
    fs = ms = 1e-6 + 1e-5*whole + 1e-7*kd
    for x in xs:
        c = sol.cut(name, x)
        if c is None:
            return 1.0, 1.0
        fs = max(fs, abs(c['Fx']), abs(c['Fy']), abs(c['Fz']))
        ms = max(ms, abs(c['Mx']), abs(c['My']), abs(c['Mz']))
    return max(fs, ms/20), max(ms, fs)


def cmp_diagrams(rec, key, m, sol, name, combo, tol=1e-6, scale=None):
    """section forces of one physical member at every break (both sides) and inside every segment"""
    mem = m.members[name]
    xs, b = stations(sol, name)
    L = b[-1]
    fs, ms = scale or force_scale(sol, name)
    ok = True
    pts = [(x, None) for x in xs]
    for x in b:
        pts.append((x, 'b'))
    for x, kind in pts:
        if kind is None:
            alts = [sol.cut(name, x)]
        elif x <= 1e-9*L:
            alts = [sol.cut(name, x, 1)]
            if any(abs(s) < 1e-9 for s, _ in sol.els[name][0].pt):
                alts.append(sol.cut(name, x, -1))
        elif x >= L*(1 - 1e-9):
            alts = [sol.cut(name, x, -1), sol.cut(name, x, 1)]
        else:
            alts = [sol.cut(name, x, -1), sol.cut(name, x, 1)]
        for q in MOM:
            s = fs if q[0] == 'F' else ms
            got = query(mem, q, x, combo)
            rec.ev()
            if not any(abs(got - a[q]) <= tol*s for a in alts):
                rec.fail('%s:%s:%s:x=%.6g' % (key, name, q, x), 'combo %s member %s %s(x=%.6g) got %r expected %s' % (
                    combo, name, q, x, got, [a[q] for a in alts]))
                ok = False
    return ok


def cmp_defl(rec, key, m, sol, name, combo, tol=1e-6):
    mem = m.members[name]
    xs, b = stations(sol, name)
    want = {x: sol.defl(name, x) for x in xs + b}
    sc = max([np.abs(w).max() for w in want.values()] + [1e-9])
    ok = True
    for x, w in want.items():
        for k, d in enumerate(('dx', 'dy', 'dz')):
            got = mem.deflection(d, x, combo)
            rec.ev()
            if not abs(got - w[k]) <= tol*sc:
                rec.fail('%s:%s:%s:x=%.6g' % (key, name, d, x), 'combo %s member %s %s(x=%.6g) got %r expected %r (scale %g)' % (
                    combo, name, d, x, got, w[k], sc))
                ok = False
    return ok


def prod(*a):
    return list(itertools.product(*a))


def rotation(axis, deg):
    a = np.array(axis, float)
    a /= np.linalg.norm(a)
    t = math.radians(deg)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t)*K + (1 - math.cos(t))*K @ K
