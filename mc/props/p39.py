"""Models in parallel threads."""
import functools

import numpy as np

from .. import cut, frames, ops
from . import p36
from .p28 import difference, snap

ID = 'P39'
TITLE = 'Models worked on in parallel threads do not disturb each other'
RULE = ('every small model is built, solved and queried with one preemption by another thread that builds, solves and queries a whole other model '
        'with clashing names: at the first execution of every source line of the code under test (quick: every line for frames, every fourth for other models; thorough: also at a middle and the last one, '
        'and every fourth line in every other pair of models); both threads\' results equal those of the models on their own')
ASSUMPTIONS = ['one preemption, at source lines of PyNite; each thread works on a model of its own',
               'the libraries below (numpy, scipy) are safe for threads']
CHUNKS = 16
n = frames.n
DISPS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ', 'RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ')


def frame(s, an):
    return [['mat', 'S', 1000.*s, 400., .3, 1., 36.], n('A', 0., 0., 0.), n('B', 0., 10., 0.), n('C', 6.*s, 10., 8.), n('V', 3.*s, 10., 4.), ['aux', 'X', 4., -7., 11.],
            ['member', 'M1', 'A', 'B', 'S', 60., 150., 25., 10.*s], ['member', 'M2', 'B', 'C', 'S', 90.*s, 140., 55., 6., dict(aux_node='X')],
            ['release', 'M2', [False]*5 + [True] + [False]*6], ['spring', 'S1', 'A', 'C', 5.*s], ['support', 'A', [True]*6], ['sspring', 'C', 'DZ', 3.*s], ['sspring', 'B', 'DX', 3., '+'],
            ['disp', 'C', 'DY', .01*s], ['combo', 'P', {'K0': 1., 'K1': 2.*s}, ['a']], ['combo', 'Q', {'K1': -1., 'K0': s}],
            ['nload', 'B', 'FX', .5*s, 'K0'], ['nload', 'C', 'MY', .75, 'K1'], ['dload', 'M2', 'Fy', .1, .2*s, 1., 9., 'K1'], ['dload', 'M1', 'FX', .1, .1, None, None, 'K0'],
            ['ptload', 'M2', 'Fz', s, 4., 'K0'], ['ptload', 'M1', 'My', 1., 3., 'K1'], ['dload', 'M2', 'Fx', .1, .3, None, None, 'K0'], ['selfw', 'FZ', -.01, 'K1'], an]


def shell(s, an):
    return [p36.SHELL, n('P0', 0., 0., 0.), n('P1', 4.*s, 0., 0.), n('P2', 4.*s, 3., 0.), n('P3', 0., 3., 0.), n('P4', 8., 0., 1.),
            n('P5', 9., 3.*s, 0.), ['quad', 'Q1', 'P1', 'P4', 'P5', 'P2', .5*s, 'C', dict(kx_mod=.7)],
            ['plate', 'R1', 'P0', 'P1', 'P2', 'P3', .5, 'C', dict(ky_mod=.6)], ['support', 'P0', [True]*6], ['support', 'P3', [True]*6], ['support', 'P4', [True]*3 + [False]*3],
            ['combo', 'P', {'K0': 1.}], ['combo', 'Q', {'K1': -s, 'K0': .5}], ['qpress', 'Q1', .1*s, 'K0'], ['ppress', 'R1', -.2, 'K1'],
            ['nload', 'P5', 'FY', 2., 'K1'], ['nload', 'P2', 'FZ', 2.*s, 'K0'], an]


def mesh(s, an):
    return [p36.SHELL, ['rmesh', 'MS', 1.5*s, 2.*s, 2., .4, 'C', dict(x_control=[1.*s])], ['opening', 'MS', 'O', 1.*s, 1., 1.*s, 1.], ['gen', 'MS'],
            ['cyl', 'MC', 2.0, 2.0, 2.0*s, .3, 'C', dict(num_elements=3, origin=[1.5, 0., 2.])], ['gen', 'MC'], ['hold', 'Y'], ['combo', 'P', {'K0': 1.*s}],
            ['combo', 'Q', {'K1': -1.5, 'K0': .5}], ['press', .02*s, 'K0'], ['corner', 'FX', 1.0*s, 'K1'], ['merge'], ['rename'], an]


KINDS = {'frame': frame(1., ['analyze', {}]), 'frame2': frame(1.5, ['analyze', dict(sparse=False)]), 'linear': frame(1., ['analyze_linear', {}]),
         'pdelta': frame(1., ['pdelta', {}]), 'shell': shell(1., ['analyze', {}]), 'shell2': shell(1.25, ['analyze_linear', dict(sparse=False)]),
         'mesh': mesh(1., ['analyze', {}]), 'mesh2': mesh(1.25, ['analyze', {}])}
PAIRS = [('frame', 'frame2'), ('pdelta', 'frame2'), ('shell', 'shell2'), ('mesh', 'mesh2')]


def read(m, combos='PQ'):
    out = [x for c in combos for x in p36.results(m, c)] if not m.meshes else []
    a, b = combos[0], combos[-1]
    out += [('mesh:' + k, np.array([x.max_moment('Mx', a), x.min_shear('Qy', b)], float)) for k, x in m.meshes.items()]
    out += [('env:' + k, np.array([x.max_moment('Mz', a), x.min_shear('Fy', b), x.max_deflection('dy', a), x.max_axial(b), x.min_torque(a)], float)) for k, x in m.members.items()]
    out += [('arr:' + k, np.concatenate([x.moment_array('My', 5, b).ravel(), x.deflection_array('dz', 5, a).ravel(), x.shear_array('Fz', 5, b).ravel(), x.axial_array(5, a).ravel()]))
            for k, x in m.members.items()]
    out += [('node:' + k, np.array([getattr(x, d)[c] for d in DISPS for c in combos])) for k, x in m.nodes.items()]
    return {(str(i), k): v for i, (k, v) in enumerate(out)}


def whole(kind):
    m = ops.new_model()
    for op in KINDS[kind]:
        p36.do(m, op)
    return read(m), snap(m)


@functools.lru_cache(None)
def alone(kind):
    return p36.afresh(lambda: whole(kind))


def prepare():
    """the models on their own, before the processes that run the cases are forked off"""
    for k in KINDS:
        try:
            alone(k)
        except RuntimeError:
            pass


def cases(tier):
    prepare()
    th = tier != 'quick'
    return [[a, b, c, th and (a, b) in PAIRS] for c in range(CHUNKS) for a, b in ([(a, b) for a in KINDS for b in KINDS] if th else PAIRS)]


def compare(rec, key, got, kind, what):
    want = alone(kind)
    p36.compare(rec, key, got[0], want[0], what)
    d = difference(got[1], want[1])
    rec.true(key + ':content', d is None, '%s: the model differs from the same model on its own: %s' % (what, d))


def run(case, rec):
    rec.history = case
    a, b, c, deep = case
    with ops.quiet():
        whole(a), whole(b)
        locs = cut.locations(lambda: whole(a))
        for i, (loc, *ns) in enumerate(locs):
            if i % CHUNKS != c or not deep and a != 'frame' and (i//CHUNKS + i) % 4:
                continue
            for n in dict.fromkeys(ns if deep else ns[:1]):
                other = []
                key = '%s:%s:%s:%d' % (a, b, loc, n)
                got, hit = cut.at(lambda: whole(a), n, lambda: other.append(whole(b)))
                if not hit:
                    continue        # the program takes a shorter course when run again
                rec.step(2)
                rec.state((a, b, loc, n))
                compare(rec, key + ':a', got, a, 'model %s, preempted at %s by model %s' % (a, loc, b))
                compare(rec, key + ':b', other[0], b, 'model %s, run while %s was at %s' % (b, a, loc))
                rec.trace()
            rec.outcome((a, b, loc))
