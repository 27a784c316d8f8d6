"""The numeric type in which a value is given makes no difference."""
import functools

import numpy as np

from .. import frames, ops
from . import p36

ID = 'P37'
TITLE = 'Whole numbers give the same results as int, float or numpy scalar'
RULE = ('models whose every value is a whole number, and a small bent with one of 300 features; every operation in turn, every kind of operation in turn and all of them together '
        'given as int, numpy int64, numpy float64 (against float), with every analysis; every position queried with every type; all results '
        'and mesh contents equal those for floats')
ASSUMPTIONS = ['types narrower than 64 bits, complex numbers and strings are not claimed', 'values that are not whole stay floats']

n = frames.n
BASES = {
    'frame': [['mat', 'S', 1000., 400., .3, 1., 36.], ['mat', 'W', 2000., 800., 0., 2.], n('A', 0., 0., 0.), n('B', 0., 10., 0.), n('C', 12., 10., 0.), n('D', 12., 0., 0.),
              n('E', 12., 10., 8.), n('V', 6., 10., 0.), ['aux', 'X', 4., -7., 11.],
              ['member', 'M1', 'A', 'B', 'S', 60., 150., 25., 10.], ['member', 'M2', 'B', 'C', 'W', 90., 140., 55., 6., dict(aux_node='X')],
              ['member', 'M3', 'D', 'C', 'S', 60., 150., 25., 10.], ['member', 'T1', 'A', 'C', 'S', 3., 5., 2., 1., dict(tension_only=True)],
              ['member', 'T2', 'E', 'B', 'S', 3., 5., 2., 1.], ['release', 'T1', [False]*4 + [True]*2 + [False]*4 + [True]*2],
              ['spring', 'S1', 'E', 'C', 12.], ['support', 'A', [True]*6], ['support', 'D', [True]*3 + [False] + [True]*2], ['support', 'E', [True]*6],
              ['sspring', 'C', 'DY', 9., '-'], ['sspring', 'B', 'RX', 7.], ['disp', 'D', 'DX', 1.], ['disp', 'A', 'RZ', 0.],
              ['combo', 'P', {'K0': 1., 'K1': 2.}], ['combo', 'Q', {'K1': -1., 'K2': 1.}],
              ['nload', 'B', 'FX', 6., 'K0'], ['nload', 'C', 'FY', -9., 'K1'], ['nload', 'C', 'MY', 3., 'K2'], ['dload', 'M2', 'FY', -2., -4., 1., 10., 'K1'],
              ['dload', 'T2', 'Fz', 1., 3., None, None, 'K0'], ['ptload', 'M1', 'Fz', 5., 4., 'K2'], ['ptload', 'M2', 'Mx', 2., 7., 'K2'],
              ['dload', 'M3', 'Fx', 1., 1., 2., 9., 'K2'], ['ptload', 'M3', 'MZ', 4., 3., 'K0'], ['selfw', 'FZ', 1., 'K2']],
    'shell': [['mat', 'C', 1000., 400., .3, 1.], ['mat', 'S', 1000., 400., 0., 1.], n('P0', 0., 0., 0.), n('P1', 4., 0., 0.), n('P2', 4., 3., 0.), n('P3', 0., 3., 0.),
              n('P4', 8., 0., 0.), n('P5', 9., 3., 0.), n('P6', 4., 7., 0.), n('P7', 0., 7., 0.), n('U', 9., 3., 5.),
              ['quad', 'Q1', 'P0', 'P1', 'P2', 'P3', 1., 'C'], ['quad', 'Q2', 'P1', 'P4', 'P5', 'P2', 2., 'C', dict(kx_mod=2., ky_mod=1.)],
              ['plate', 'R1', 'P3', 'P2', 'P6', 'P7', 1., 'C', dict(kx_mod=1., ky_mod=2.)], ['member', 'C1', 'U', 'P5', 'S', 60., 150., 25., 10.],
              ['support', 'P0', [True]*6], ['support', 'P7', [True]*3 + [False]*3], ['support', 'U', [True]*6], ['sspring', 'P4', 'DZ', 7.],
              ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': -2., 'K0': 1.}],
              ['qpress', 'Q1', 3., 'K0'], ['qpress', 'Q2', -1., 'K1'], ['ppress', 'R1', -2., 'K1'], ['nload', 'P5', 'FY', 2., 'K1'], ['nload', 'P6', 'FZ', 2., 'K0']],
    'mesh': [['mat', 'C', 1000., 400., .3, 1.], ['rmesh', 'MS', 1., 3., 2., 1., 'C', dict(kx_mod=2., ky_mod=1., origin=[1., 0., 2.], plane='XZ', x_control=[2.])],
             ['opening', 'MS', 'O', 1., 0., 1., 1.], ['gen', 'MS'], ['hold', 'Z'], ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': -1., 'K0': 2.}],
             ['press', 2., 'K0'], ['corner', 'FX', 1., 'K1'], ['merge', 0.]],
    'rect': [['mat', 'C', 1000., 400., .3, 1.], ['rmesh', 'MS', 2., 4., 3., 1., 'C', dict(element_type='Rect', origin=[0., 1., 2.], plane='YZ', y_control=[1.])],
             ['gen', 'MS'], ['hold', 'Y'], ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': -1.}], ['pressr', 2., 'K0'], ['corner', 'FZ', 1., 'K1']],
    'cylinder': [['mat', 'C', 1000., 400., .3, 1.], ['cyl', 'MC', 2., 3., 4., 1., 'C', dict(num_elements=8, origin=[1., 2., 3.], kx_mod=2.)], ['gen', 'MC'], ['hold', 'Y'],
                 ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': 1.}], ['press', 2., 'K0'], ['corner', 'FZ', -1., 'K1']],
    'annulus': [['mat', 'C', 1000., 400., .3, 1.], ['ann', 'MA', 2., 6., 3., 1., 'C', dict(origin=[1., 2., 3.], axis='Y')], ['gen', 'MA'], ['hold', 'X'],
                ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': 1.}], ['press', 2., 'K0'], ['corner', 'FX', -1., 'K1']],
    'frustrum': [['mat', 'C', 1000., 400., .3, 1.], ['fru', 'MF', 2., 4., 2., 3., 1., 'C', dict(origin=[1., 2., 3.], axis='Y')], ['gen', 'MF'], ['hold', 'Y'],
                 ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': 1.}], ['press', 2., 'K0'], ['corner', 'FX', -1., 'K1']],
}
# a bent in space; one feature is added to it
SMALL = [['mat', 'S', 1000., 400., .3, 1., 36.], n('A', 0., 0., 0.), n('B', 0., 10., 0.), n('C', 6., 10., 8.), ['member', 'M1', 'A', 'B', 'S', 60., 150., 25., 10.],
         ['member', 'M2', 'B', 'C', 'S', 90., 140., 55., 6.], ['support', 'A', [True]*6], ['combo', 'P', {'K0': 1., 'K1': 2.}], ['combo', 'Q', {'K1': -1., 'K0': 1.}],
         ['nload', 'B', 'FX', .5, 'K0'], ['nload', 'C', 'FY', .75, 'K1'], ['nload', 'B', 'FZ', -1.25, 'K1']]
D6 = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
F3, M3 = ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ'), ('Mx', 'My', 'Mz', 'MX', 'MY', 'MZ')
FEATURES = ([['disp', x, d, v] for x in 'BC' for d in D6 for v in (2., 0.)]
            + [['sspring', x, d, 3., w] for x in 'BC' for d in D6 for w in (None, '+', '-')]
            + [['nload', x, d, 3., 'K1'] for x in 'ABC' for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')]
            + [['ptload', x, d, 3., y, 'K0'] for x in ('M1', 'M2') for d in F3 + M3 for y in (0., 4., 10.)]
            + [['dload', x, d, *w, *y, 'K0'] for x in ('M1', 'M2') for d in F3 for w in ((3., 1.), (0., 2.), (-2., -2.)) for y in ((None, None), (2., 7.), (0., 10.), (3., None))]
            + [['selfw', d, v, 'K1'] for d in ('FX', 'FY', 'FZ') for v in (1., -2.)]
            + [['spring', 'S1', x, y, 5.] for x, y in ('AC', 'CA', 'BC')]
            + [['combo', 'P', {'K0': u, 'K1': v}] for u in (0., 2.) for v in (-1., 1.)])
TYPES = {'int': int, 'i64': np.int64, 'f64': np.float64}
AN = {'analyze': ['analyze', {}], 'linear': ['analyze_linear', {}], 'dense': ['analyze', dict(sparse=False)], 'pdelta': ['pdelta', {}], 'pdense': ['pdelta', dict(sparse=False)]}


def conv(x, t):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, list):
        return [conv(y, t) for y in x]
    if isinstance(x, dict):
        return {k: conv(v, t) if k != 'num_elements' else v for k, v in x.items()}
    return t(x) if float(x).is_integer() else x


def do(m, op):
    k, a = op[0], op[1:]
    kw = a[-1] if a and isinstance(a[-1], dict) else {}
    if k == 'ann':
        m.add_annulus_mesh(*a[:-1], **kw)
    elif k == 'fru':
        m.add_frustrum_mesh(*a[:-1], **kw)
    elif k == 'pressr':
        for q in list(m.plates):
            m.add_plate_surface_pressure(q, a[0], a[1])
    else:
        p36.do(m, op)


def make(base, an, types, feature=None):
    m = ops.new_model()
    if feature is not None:
        t = types.get('f%d' % feature)
        for op in SMALL:
            do(m, op)
        do(m, conv(FEATURES[feature], TYPES[t]) if t else FEATURES[feature])
        ops.apply_real(m, AN[an])
        return m
    for i, op in enumerate(BASES[base]):
        t = types.get(i) or types.get(op[0]) or types.get('all')
        do(m, conv(op, TYPES[t]) if t else op)
    ops.apply_real(m, AN[an])
    return m


def content(m):
    """geometry and connectivity by value"""
    out = [('nodes', [(k, round(float(v.X), 7), round(float(v.Y), 7), round(float(v.Z), 7)) for k, v in m.nodes.items()])]
    for d in ('quads', 'plates'):
        out.append((d, [(k, q.i_node.name, q.j_node.name, q.m_node.name, q.n_node.name, float(q.t)) for k, q in getattr(m, d).items()]))
    out.append(('subs', [(k, [round(float(s.L()), 7) for s in v.sub_members.values()]) for k, v in m.members.items()]))
    return out


@functools.lru_cache(None)
def plain(base, an, feature=None):
    try:
        m = make(base, an, {}, feature)
    except Exception as e:
        # a one-way spring may toggle for ever; whether rightly is P09's subject
        if feature is None or 'diverged' not in str(e):
            raise
        return None, str(e)
    return p36.read(m), content(m)


def cases(tier):
    out = []
    for b, h in BASES.items():
        for t in TYPES:
            for a in AN:
                if a in ('pdelta', 'pdense') and b != 'frame' or a == 'dense' and b in ('cylinder', 'annulus', 'frustrum'):
                    continue
                out.append([b, a, {'all': t}])
                if a not in ('analyze', 'pdelta') and tier == 'quick':
                    continue
                out += [[b, a, {k: t}] for k in sorted({o[0] for o in h})]
                if tier != 'quick' or t != 'f64':
                    out += [[b, a, {str(i): t}] for i in range(len(h))]
    for b in ('frame', 'shell'):
        for t in TYPES:
            out.append([b, 'query', t])
    for f in range(len(FEATURES)):
        for t in TYPES:
            for a in AN:
                if tier != 'quick' or a in ('analyze', 'pdense') and (t != 'f64' or a == 'analyze'):
                    out.append(['small', a, {'f%d' % f: t}])
    if tier != 'quick':
        for b, h in BASES.items():
            ks = sorted({o[0] for o in h})
            for i, k in enumerate(ks):
                for k2 in ks[i + 1:]:
                    for t, t2 in (('int', 'i64'), ('i64', 'int'), ('int', 'f64'), ('i64', 'i64')):
                        out.append([b, 'pdelta' if b == 'frame' else 'analyze', {k: t, k2: t2}])
    return out


def run(case, rec):
    rec.history = case
    b, a, t = case
    key = '%s:%s:%s' % (b, a, t if isinstance(t, str) else '+'.join('%s=%s' % kv for kv in t.items()))
    if a == 'query':
        with ops.quiet():
            return queries(rec, key, b, t)
    f = int(next(iter(t))[1:]) if b == 'small' else None
    want, cont = plain(b, a, f)
    if want is None:
        try:
            make(b, a, t, f)
            rec.fail(key + ':refused', 'refused with floats (%s), not with %s' % (cont, t))
        except Exception as e:
            rec.true(key + ':refused', str(e) == cont, 'refused with %s instead of %s' % (e, cont))
        return
    m = make(b, a, {int(k) if k.isdigit() else k: v for k, v in t.items()}, f)
    rec.step(len(SMALL if b == 'small' else BASES[b]) + 1)
    rec.state((b, a, tuple(t.items())))
    for (d, x), (_, y) in zip(content(m), cont):
        rec.true(key + ':' + d, x == y, '%s: %s' % (d, [(u, v) for u, v in zip(x, y) if u != v][:3]))
    got = p36.read(m)
    rec.true(key + ':labels', list(got) == list(want), 'objects differ: %s' % sorted(set(got) ^ set(want))[:5])
    big = {}
    for (c, lab), x in want.items():
        g = lab.split(':')[0]
        big[g] = max(big.get(g, 1e-3), np.abs(x).max() if x.size else 0)
    for k in want:
        if k in got:
            rec.close('%s:%s:%s' % ((key,) + k), got[k], want[k], 1e-9, big[k[1].split(':')[0]], '%s, combination %s with %s' % (k[1], k[0], t))
    rec.trace()
    rec.outcome(key)


def queries(rec, key, b, t):
    """positions given to the queries"""
    m = make(b, 'analyze', {})
    T = TYPES[t]
    for nm, M in m.members.items():
        L = int(M.L())
        for x in range(0, L + 1):
            for c in p36.COMBOS:
                for f in (lambda x: M.shear('Fy', x, c), lambda x: M.shear('Fz', x, c), lambda x: M.moment('My', x, c), lambda x: M.moment('Mz', x, c), lambda x: M.torque(x, c),
                          lambda x: M.axial(x, c), lambda x: M.deflection('dx', x, c), lambda x: M.deflection('dy', x, c), lambda x: M.deflection('dz', x, c),
                          lambda x: M.rel_deflection('dy', x, c), lambda x: M.rel_deflection('dz', x, c)):
                    rec.close('%s:%s:%d' % (key, nm, x), f(T(x)), f(float(x)), 1e-9, 1e-6, 'query of %s at %r' % (nm, T(x)))
                rec.step(11)
                rec.state((b, nm, x, c))
        xs = np.arange(0, L + 1)
        for c in p36.COMBOS:
            for q in ('shear_array', 'moment_array', 'deflection_array', 'rel_deflection_array'):
                for d in {'s': ('Fy', 'Fz'), 'm': ('My', 'Mz')}.get(q[0], ('dy', 'dz')):
                    if t != 'f64':      # a number of points has to be an integer
                        g, w = getattr(M, q)(d, T(7), c), getattr(M, q)(d, 7, c)
                        rec.close('%s:%s:%s:%s' % (key, nm, q, d), g, w, 1e-9, 1e-6, '%s with %r points' % (q, T(7)))
                        g, w = getattr(M, q)(d, 7, c, xs.astype(T)), getattr(M, q)(d, 7, c, xs.astype(float))
                        rec.close('%s:%s:%s:%s:x' % (key, nm, q, d), g, w, 1e-9, 1e-6, '%s at an array of %s' % (q, t))
                    rec.step(2)
    for e in list(m.quads.values()) + list(m.plates.values()):
        for x in range(-1, 2) if e.type == 'Quad' else range(0, int(e.width()) + 1):
            for y in range(-1, 2) if e.type == 'Quad' else range(0, int(e.height()) + 1):
                for c in p36.COMBOS:
                    for f in (e.shear, e.moment, e.membrane):
                        rec.close('%s:%s:%d,%d' % (key, e.name, x, y), f(T(x), T(y), True, c), f(float(x), float(y), True, c), 1e-9, 1e-6, '%s of %s' % (f.__name__, e.name))
                    rec.step(3)
    rec.trace()
    rec.outcome(key)
