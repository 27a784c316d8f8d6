"""Models are independent: of other models, of their copies and of the values handed to them."""
import copy
import functools
import itertools
import os
import pickle

import numpy as np

from .. import frames, ops
from ..common import MAT
from . import p10
from .p06 import results
from .p28 import difference, snap

ID = 'P36'
TITLE = 'Models, their copies and the values handed to them do not affect each other'
RULE = ('two models: every interleaving of the stages (build, analyze and query, edit, analyze and query) of every ordered pair of models, and '
        'every preemption of one construction, operation by operation, by another whole model; copies: a deep copy and a pickled copy at every '
        'point of every history, continued in the copy, the original or both with different operations; every mutable argument before and '
        'after each call that takes one. Results equal those of the model on its own')
ASSUMPTIONS = ['one thread: calls on different models alternate but do not overlap',
               'a model that cannot be pickled at all is not reported']

SHELL = frames.SHELLM
# a construction, an edit; names clash between the models on purpose
KINDS = {
    'frame': (p10.BASES['frame'], [['nload', 'B', 'FZ', 2.5, 'K0'], ['release', 'M2', [False]*5 + [True] + [False]*6], ['del_member', 'T1'],
                                   ['combo', 'Q', {'K1': .5, 'K2': -1.0}, ['b', 'a']], ['sspring', 'B', 'DX', 30.0]], ['analyze', {}]),
    'other': ([MAT, frames.n('A', 0, 0, 0), frames.n('B', 8, 0, 3), frames.n('C', 8, 6, 3), frames.n('V', 4, 0, 1.5), ['aux', 'X', -3., 8., 1.],
               ['member', 'M1', 'A', 'B', 'S', 30., 90., 12., 4.], ['member', 'M2', 'C', 'B', 'S', 20., 60., 15., 5., dict(aux_node='X')],
               ['support', 'A', [True]*6], ['support', 'C', [True]*5 + [False]], ['combo', 'P', {'K0': -1.0, 'K2': .3}, ['b']], ['combo', 'Q', {'K1': 2.0}],
               ['nload', 'B', 'FY', -4.0, 'K0'], ['dload', 'M1', 'Fz', .2, .1, 1., 6., 'K1'], ['ptload', 'M2', 'MX', 3., 2., 'K2']],
              [['nload', 'B', 'FX', 1.5, 'K1'], ['del_node', 'V'], ['disp', 'C', 'DX', .1], ['support', 'C', [True]*6]], ['pdelta', {}]),
    'oneway': (p10.BASES['oneway'], [['nload', 'B%d' % i, 'FX', (-1)**(i + 1)*5.0, 'K0'] for i in range(6)], ['analyze', dict(sparse=False)]),
    'shell': (p10.BASES['shell'], [['qpress', 'Q1', .05, 'K1'], ['del_node', 'U'], ['support', 'P4', [True]*6], ['rename']], ['analyze_linear', {}]),
    'mesh': ([SHELL, ['rmesh', 'MS', 1.5, 3., 3., .4, 'C', dict(start_node='N1', start_element='Q1')], ['opening', 'MS', 'O', 1.5, 0., 1.5, 1.5], ['gen', 'MS'],
              ['hold', 'Y'], ['combo', 'P', {'K0': 1.0}], ['combo', 'Q', {'K1': -1.5, 'K0': .5}], ['press', .02, 'K0'], ['corner', 'FX', 1.0, 'K1']],
             [['press', -.01, 'K1'], ['corner', 'FZ', .5, 'K0'], ['merge'], ['rename']], ['analyze', {}]),
    'curved': ([SHELL, ['cyl', 'MC', 2.0, 2.0, 4.0, .3, 'C', dict(num_elements=6)], ['gen', 'MC'], ['hold', 'Y'], ['combo', 'P', {'K0': .7}],
                ['combo', 'Q', {'K1': 1.0}], ['press', .03, 'K0'], ['corner', 'FZ', -1.0, 'K1']],
               [['rmesh', 'MS', 2., 2., 2., .2, 'C', dict(origin=[4., 0., 4.], plane='XZ')], ['gen', 'MS'], ['hold', 'Y'], ['press', .01, 'K1']], ['analyze', {}]),
}
COMBOS = ('P', 'Q')
SLOW = {'mesh', 'curved', 'oneway'}


def do(m, op):
    k, a = op[0], op[1:]
    kw = a[-1] if a and isinstance(a[-1], dict) else {}
    if k == 'rmesh':
        m.add_rectangle_mesh(*a[:-1], **kw) if kw else m.add_rectangle_mesh(*a)
    elif k == 'cyl':
        m.add_cylinder_mesh(*a[:-1], **kw) if kw else m.add_cylinder_mesh(*a)
    elif k == 'opening':
        m.meshes[a[0]].add_rect_opening(*a[1:])
    elif k == 'gen':
        m.meshes[a[0]].generate()
    elif k == 'hold':
        lo = min(getattr(n, a[0]) for n in m.nodes.values())
        for nm, n in list(m.nodes.items()):
            if abs(getattr(n, a[0]) - lo) < 1e-9:
                m.def_support(nm, True, True, True, True, True, True)
    elif k == 'press':
        for q in list(m.quads):
            m.add_quad_surface_pressure(q, a[0], a[1])
    elif k == 'corner':
        m.add_node_load(max(m.nodes, key=lambda n: (round(m.nodes[n].Y, 6), round(m.nodes[n].X, 6), round(m.nodes[n].Z, 6))), *a)
    else:
        ops.apply_real(m, op)


def program(kind):
    """(operations, positions after which the results are read)"""
    b, e, an = KINDS[kind]
    return b + [an] + e + [an], (len(b) + 1, len(b) + len(e) + 2)


def stages(kind):
    p, (i, j) = program(kind)
    return [p[:i - 1], p[i - 1:i], p[i:j - 1], p[j - 1:]]


def read(m):
    out = {}
    for c in COMBOS:
        for lab, x in results(m, c):
            out[c, lab] = x
        for nm, me in m.meshes.items():
            if me.elements:
                out[c, 'mesh:' + nm] = np.array([f(d, c) for f, d in ((me.max_moment, 'Mx'), (me.min_moment, 'My'), (me.max_shear, 'Qx'), (me.min_shear, 'Qy'))], float)
    for nm, me in m.members.items():
        out['all', 'env:' + nm] = np.array([me.max_moment('Mz', 'P'), me.min_shear('Fy', 'Q'), me.max_deflection('dy', 'P'), me.max_axial('Q'), me.min_torque('P')], float)
    return out


def _alone(kind):
    m, out = ops.new_model(), []
    p, at = program(kind)
    for i, op in enumerate(p):
        do(m, op)
        if i + 1 in at:
            out.append(read(m))
    return out, snap(m)


def afresh(f):
    """the value of f in a process forked off here"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            with ops.quiet():
                x = pickle.dumps(f())
        except BaseException as e:
            x = pickle.dumps(repr(e))
        with os.fdopen(w, 'wb') as h:
            h.write(x)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        x = pickle.loads(h.read())
    os.waitpid(pid, 0)
    if isinstance(x, str):
        raise RuntimeError('the model on its own fails: ' + x)
    return x


@functools.lru_cache(None)
def alone(kind):
    """the results of a model in a process that has seen no other"""
    return afresh(lambda: _alone(kind))


def same(rec, key, m, want, what):
    compare(rec, key, read(m), want, what)
    rec.trace()


def compare(rec, key, got, want, what):
    rec.true(key + ':labels', list(got) == list(want), '%s: objects %s, on its own %s' % (what, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]))
    big = {}
    for (c, lab), x in want.items():
        g = lab.split(':')[0]
        big[g] = max(big.get(g, 1e-3), np.abs(x).max() if x.size else 0)
    for k in want:
        if k in got:
            rec.close('%s:%s:%s' % ((key,) + k), got[k], want[k], 1e-9, big[k[1].split(':')[0]], '%s: combination %s %s' % ((what,) + k))


def cases(tier):
    th = tier != 'quick'
    for k in KINDS:
        # before the processes that run the cases are forked off; a model that fails on its own is reported by every case that uses it
        try:
            alone(k)
        except RuntimeError:
            pass
    out = [['args', k] for k in ARGS]
    ks = list(KINDS)
    for i, a in enumerate(ks):
        for b in ks[i:]:
            for w in sorted(set(itertools.permutations('aaaabbbb'))):
                if th or sum(x != y for x, y in zip(w, w[1:])) > (5 if {a, b} & SLOW else 3) and (a != b or w[0] == 'a'):
                    out.append(['merge', a, b, ''.join(w)])
    for a in ks:
        p, _ = program(a)
        for b in ks:
            for i in range(0, len(p)):
                if th or (i + ks.index(b)) % (5 if {a, b} & SLOW else 3) == 0:
                    out.append(['cut', a, b, i])
    for a in ks:
        p, _ = program(a)
        for i in range(len(p) + 1):
            for how in ('deep', 'pickle'):
                for w in ('copy', 'orig', 'both'):
                    out.append(['copy', a, i, how, w])
    if th:
        for a in ks:
            p, _ = program(a)
            for b in ks:
                n = len(program(b)[0])
                for i in range(0, len(p), 2):
                    for j in range(i % 3, n, 3):
                        out.append(['cut2', a, b, i, j])
    return out


def run(case, rec):
    rec.history = case
    key = ':'.join(map(str, case))
    with ops.quiet():
        globals()['c_' + case[0]](rec, key, *case[1:])
    rec.outcome(key)


class Program:
    def __init__(self, rec, key, kind, m=None, at=0):
        self.rec, self.key, self.kind, self.at = rec, key, kind, at
        self.m = ops.new_model() if m is None else m
        self.p, self.reads = program(kind)
        self.want = alone(kind)

    def step(self):
        do(self.m, self.p[self.at])
        self.at += 1
        self.rec.step()
        if self.at in self.reads:
            same(self.rec, '%s:%s@%d' % (self.key, self.kind, self.at), self.m, self.want[0][self.reads.index(self.at)], 'model ' + self.kind)

    def to(self, n):
        while self.at < n:
            self.step()

    def end(self):
        self.to(len(self.p))
        d = difference(snap(self.m), self.want[1])
        self.rec.true('%s:%s:content' % (self.key, self.kind), d is None, 'model %s differs from the same model on its own: %s' % (self.kind, d))


def c_merge(rec, key, a, b, word):
    ps = {'a': Program(rec, key + ':a', a), 'b': Program(rec, key + ':b', b)}
    n = dict(a=0, b=0)
    lens = {k: list(itertools.accumulate(len(s) for s in stages(x))) for k, x in (('a', a), ('b', b))}
    for i, w in enumerate(word):
        ps[w].to(lens[w][n[w]])
        n[w] += 1
        rec.state((a, b, word[:i + 1]))
    for p in ps.values():
        p.end()


def c_cut(rec, key, a, b, i):
    x, y = Program(rec, key + ':a', a), Program(rec, key + ':b', b)
    x.to(i)
    rec.state((a, b, i))
    y.end()
    x.end()
    rec.state((a, b, i, 'end'))


def c_cut2(rec, key, a, b, i, j):
    x, y = Program(rec, key + ':a', a), Program(rec, key + ':b', b)
    x.to(i)
    y.to(j)
    rec.state((a, b, i, j))
    x.end()
    y.end()


def c_copy(rec, key, a, i, how, w):
    x = Program(rec, key + ':orig', a)
    x.to(i)
    before = snap(x.m)
    rec.state((a, i))
    if how == 'deep':
        c = copy.deepcopy(x.m)
    else:
        try:
            s = pickle.dumps(x.m)
        except Exception:
            return
        c = pickle.loads(s)
    d = difference(snap(c), before)
    rec.true(key + ':same', d is None, 'the copy differs from the model: %s' % d)
    d = difference(snap(x.m), before)
    rec.true(key + ':kept', d is None, 'copying changed the model: %s' % d)
    if i in x.reads:
        same(rec, key + ':copied', c, x.want[0][x.reads.index(i)], 'results of the copy')
    y = Program(rec, key + ':copy', a, c, i)
    if w == 'copy':
        y.end()
        d = difference(snap(x.m), before)
        rec.true(key + ':untouched', d is None, 'work on the copy changed the original: %s' % d)
        x.end()
    elif w == 'orig':
        x.end()
        d = difference(snap(c), before)
        rec.true(key + ':untouched', d is None, 'work on the original changed the copy: %s' % d)
        y.end()
    else:
        # the copy is stripped while the original goes on
        for nm in list(c.members):
            c.delete_member(nm)
        for nm in list(c.nodes):
            c.delete_node(nm)
        c.delete_loads()
        for o in c.load_combos.values():
            o.factors.clear()
        for o in c.materials.values():
            o.E = 1.0
        x.end()
    rec.state((a, i, how, w))


# -- arguments --------------------------------------------------------------------------------
def base():
    m = ops.build([MAT, SHELL, frames.n('A', 0, 0, 0), frames.n('B', 9, 0, 0), ['member', 'M', 'A', 'B', 'S', 30., 90., 12., 4.],
                   ['support', 'A', [True]*6], ['nload', 'B', 'FY', 2.0, 'D'], ['nload', 'B', 'MX', 2.0, 'L'], ['combo', 'P', {'D': 1., 'L': 2.}, ['t']]])
    ops.apply_real(m, ['analyze', {}])
    return m


def curved(k, a, el, n, m, v):
    """meshes of one or more courses whose origin is given, two with one list, and one that relies on the default"""
    for nm, kw in (('R1', dict(origin=v[2])), ('R2', dict(origin=v[2])), ('R3', {})):
        if k == 'annulus':
            m.add_annulus_mesh(nm, 1., 2. + n, 1., .3, 'C', axis=a, **kw)
        elif k == 'frustrum':
            m.add_frustrum_mesh(nm, 1., 2. + n, 1., 2., .3, 'C', axis=a, **kw)
        else:
            m.add_cylinder_mesh(nm, 1., 2., n, .3, 'C', axis=a, element_type=el, num_elements=6, **kw)
        m.meshes[nm].generate()


def flat(plane, el, m, v):
    for nm, kw in (('R1', dict(origin=v[2], x_control=v[3], y_control=v[4])), ('R2', dict(origin=v[2], x_control=v[3], y_control=v[4])), ('R3', {}), ('R4', dict(x_control=v[5], y_control=v[5]))):
        m.add_rectangle_mesh(nm, 1., 2., 3., .3, 'C', plane=plane, element_type=el, **kw)
        m.meshes[nm].add_rect_opening('O', .5, .5, 1., 1.25)
        m.meshes[nm].generate()


ARGS = {
    'combo': lambda m, v: m.add_load_combo('U', v[0], v[1]),
    'combo2': lambda m, v: (m.add_load_combo('U', v[0], v[1]), m.add_load_combo('V', v[0], v[1]), m.load_combos['U'].AddLoadCase('S', 3.), m.load_combos['V'].DeleteLoadCase('D')),
    'analyze': lambda m, v: (m.add_load_combo('U', v[0], v[1]), m.analyze(combo_tags=v[1])),
    'linear': lambda m, v: (m.add_load_combo('U', v[0], v[1]), m.analyze_linear(combo_tags=v[1])),
    'pdelta': lambda m, v: (m.add_load_combo('U', v[0], v[1]), m.analyze_PDelta(combo_tags=v[1])),
    'rect': lambda m, v: (m.add_rectangle_mesh('R', 1., 2., 2., .3, 'C', origin=v[2], x_control=v[3], y_control=v[4]), m.meshes['R'].generate()),
    'rect2': lambda m, v: (m.add_rectangle_mesh('R', 1., 2., 2., .3, 'C', origin=v[2], x_control=v[3], y_control=v[4]),
                           m.meshes['R'].add_rect_opening('O', .5, .5, 1., .25), m.meshes['R'].generate()),
    'rect0': lambda m, v: (m.add_rectangle_mesh('R', 1., 2., 2., .3, 'C', origin=v[2], x_control=v[5], y_control=v[5]),
                           m.meshes['R'].add_rect_opening('O', .5, .5, 1., .25), m.meshes['R'].generate()),
    'shear': lambda m, v: m.members['M'].shear_array('Fy', 5, 'P', v[6]),
    'moment': lambda m, v: m.members['M'].moment_array('Mz', 5, 'P', v[6]),
    'torque': lambda m, v: m.members['M'].torque_array(5, 'P', v[6]),
    'axial': lambda m, v: m.members['M'].axial_array(5, 'P', v[6]),
    'deflection': lambda m, v: m.members['M'].deflection_array('dy', 5, 'P', v[6]),
    'rel': lambda m, v: m.members['M'].rel_deflection_array('dy', 5, 'P', v[6]),
    **{'%s:%s:%s:%d' % (k, a, el, n): functools.partial(curved, k, a, el, n) for k in ('annulus', 'frustrum', 'cylinder') for a in 'XYZ'
       for el in (('Quad', 'Rect') if k == 'cylinder' else ('Quad',)) for n in (1, 2)},
    **{'rect:%s:%s' % (p, el): functools.partial(flat, p, el) for p in ('XY', 'XZ', 'YZ') for el in ('Quad', 'Rect')},
    'answers': None,
    'defaults': None,
}


def values():
    return [{'D': 1.5, 'L': -1.0}, ['t', 's'], [1., 0., 5.], [.5, 1.5], [.75], [], np.array([0., 1.5, 4., 8.9])]


def freeze(v):
    return repr([x.tolist() if isinstance(x, np.ndarray) else x for x in v])


def c_args(rec, key, k):
    if k == 'answers':
        return answers(rec, key)
    if k == 'defaults':
        return defaults(rec, key)
    v = values()
    was = freeze(v)
    m = base()
    ARGS[k](m, v)
    rec.step()
    rec.true(key + ':kept', freeze(v) == was, 'the caller\'s values %s were changed to %s' % (was, freeze(v)))
    # the same values serve a second model as well as they served the first
    one, two = snap(m), base()
    ARGS[k](two, v)
    d = difference(snap(two), one)
    rec.true(key + ':again', d is None, 'a second model built with the same values differs: %s' % d)
    d = difference(snap(m), one)
    rec.true(key + ':first', d is None, 'building a second model with the same values changed the first: %s' % d)
    rec.state(key)
    rec.trace()


def answers(rec, key):
    """arrays handed out by a query are the caller's: changing them changes no later answer"""
    m = base()
    M = m.members['M']
    q = dict(shear=lambda: M.shear_array('Fy', 5, 'P'), moment=lambda: M.moment_array('Mz', 5, 'P'), torque=lambda: M.torque_array(5, 'P'),
             axial=lambda: M.axial_array(5, 'P'), defl=lambda: M.deflection_array('dy', 5, 'P'), rel=lambda: M.rel_deflection_array('dy', 5, 'P'),
             cases=lambda: m.load_cases, k=lambda: m.K('P', sparse=False), p=lambda: m.P('P'), fer=lambda: m.FER('P'))
    want = {n: freeze([f()]) for n, f in q.items()}
    for n, f in q.items():
        r = f()
        if isinstance(r, list):
            r.append('zz')
        else:
            r *= 0
        rec.step()
        for o, g in q.items():
            rec.true('%s:%s:%s' % (key, n, o), freeze([g()]) == want[o], '%s changed after the caller changed an earlier answer of %s' % (o, n))
        rec.state((key, n))


def defaults(rec, key):
    """objects left at their defaults do not share them"""
    def make():
        m = ops.build([MAT, SHELL] + [frames.n('N%d' % i, 3.*(i % 2), 3.*(i//2), 0.) for i in range(6)])
        for nm in ('M1', 'M2'):
            m.add_member(nm, 'N0', 'N1', 'S', 1., 2., 3., 4.)
        for nm in ('S1', 'S2'):
            m.add_spring(nm, 'N0', 'N1', 5.)
        m.add_quad('Q1', 'N0', 'N1', 'N3', 'N2', .5, 'C'), m.add_quad('Q2', 'N2', 'N3', 'N5', 'N4', .5, 'C')
        m.add_plate('R1', 'N0', 'N1', 'N3', 'N2', .5, 'C'), m.add_plate('R2', 'N2', 'N3', 'N5', 'N4', .5, 'C')
        m.add_load_combo('U', {'D': 1.}), m.add_load_combo('V', {'D': 1.})
        for nm in ('A', 'B'):
            m.add_rectangle_mesh(nm, 1., 2., 2., .3, 'C')
            m.add_annulus_mesh('an' + nm, 1., 3., 1., .3, 'C')
        return m
    edits = [lambda m: m.def_support('N0', True, True, True), lambda m: m.def_support_spring('N0', 'DX', 5.), lambda m: m.def_node_disp('N0', 'DX', 5.),
             lambda m: m.add_node_load('N0', 'FX', 1.), lambda m: m.add_member_pt_load('M1', 'Fy', 1., 1.), lambda m: m.add_member_dist_load('M1', 'Fy', 1., 1.),
             lambda m: m.def_releases('M1', Rzi=True), lambda m: m.add_quad_surface_pressure('Q1', 2.), lambda m: m.add_plate_surface_pressure('R1', 2.),
             lambda m: m.load_combos['U'].AddLoadCase('L', 2.), lambda m: m.meshes['A'].add_rect_opening('O', .5, .5, 1., 1.),
             lambda m: m.meshes['A'].generate(), lambda m: m.meshes['anA'].generate()]
    owner = ['N0', 'N0', 'N0', 'N0', 'M1', 'M1', 'M1', 'Q1', 'R1', 'U', 'A', 'A', 'anA']
    for seq in itertools.chain(itertools.permutations(range(len(edits)), 1), itertools.permutations(range(len(edits)), 2)):
        m, o = make(), make()
        before = {d: dict(v) for d, v in snapshot(m).items()}
        ob = snapshot(o)
        for i in seq:
            edits[i](m)
            rec.step()
        k = '%s:%s' % (key, '.'.join(map(str, seq)))
        touched = {owner[i] for i in seq}
        for d, objs in before.items():
            now = snapshot(m)[d]
            for nm, s in objs.items():
                if nm not in touched:
                    rec.true('%s:%s:%s' % (k, d, nm), now[nm] == s, '%s %s changed with an edit of %s' % (d, nm, sorted(touched)))
        rec.true(k + ':model', snapshot(o) == ob, 'another model changed with edits of %s' % sorted(touched))
        rec.state((key, seq))
        rec.trace()


def snapshot(m):
    """own attributes of every object, by value, without what they refer to"""
    def val(x):
        if isinstance(x, (list, tuple)):
            return tuple(val(y) for y in x)
        if isinstance(x, dict):
            return tuple((k, val(y)) for k, y in x.items())
        if isinstance(x, (bool, int, float, str, type(None))):
            return x
        return type(x).__name__
    return {d: {n: tuple((k, val(v)) for k, v in sorted(o.__dict__.items()) if k[0] != '_') for n, o in getattr(m, d).items()}
            for d in ('nodes', 'members', 'springs', 'quads', 'plates', 'load_combos', 'meshes', 'materials')}
