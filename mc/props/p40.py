"""Analyses and queries that are cut short."""
import functools

from .. import cut, ops
from . import p36, p37, p39
from .p28 import difference, snap

ID = 'P40'
TITLE = 'Analysis, queries and mesh generation cut short by an exception can be repeated'
RULE = ('every small model (frames with one-way springs, releases and prescribed displacements; tension-only bracing; plates and quads; meshes), an analysis of every kind '
        'interrupted at the first execution of every source line of the code under test (thorough: also a middle and the last one), then any '
        'analysis run in full; all queries, and the generation of every kind of mesh next to others, likewise interrupted and then repeated. Results and content equal those without the interruption')
ASSUMPTIONS = ['the interruption is an exception raised between two source lines of PyNite (KeyboardInterrupt; thorough also MemoryError)',
               'what interrupted editing leaves behind is not claimed']
CHUNKS = 8
BRACED = [['mat', 'S', 1000., 400., .3, 1.]] + [p39.n(*x) for x in (('A', 0., 0., 0.), ('B', 6., 0., 0.), ('C', 0., 5., 0.), ('D', 6., 5., 0.))] + \
    [['member', 'M%d' % i, *e, 'S', 30., 90., 12., 4.] for i, e in enumerate(('AC', 'BD', 'CD'))] + \
    [['member', 'T1', 'A', 'D', 'S', .1, .1, .1, 1., dict(tension_only=True)], ['member', 'T2', 'B', 'C', 'S', .1, .1, .1, 1., dict(tension_only=True)],
     ['member', 'X1', 'A', 'D', 'S', .1, .1, .1, .5, dict(comp_only=True)], ['spring', 'S1', 'B', 'C', 2., dict(comp_only=True)],
     ['support', 'A', [True]*6], ['support', 'B', [True]*6], ['sspring', 'C', 'DX', 3., '-'], ['combo', 'P', {'K0': 1.}, ['a']], ['combo', 'Q', {'K0': -1., 'K1': .5}],
     ['nload', 'C', 'FX', 3., 'K0'], ['nload', 'D', 'FZ', .5, 'K1'], ['dload', 'T1', 'Fy', .01, .01, None, None, 'K1']]
MODELS = {'frame': p39.KINDS['frame'][:-1], 'braced': BRACED, 'shell': p39.KINDS['shell'][:-1], 'mesh': p39.KINDS['mesh'][:-1]}
AROUND = [p36.SHELL, p39.n('N1', 9., 9., 9.), p39.n('N3', 9., 9., 8.), p39.n('N4', 9., 8., 8.), p39.n('N9', 9., 7., 9.), ['quad', 'Q2', 'N1', 'N3', 'N4', 'N9', .2, 'C'],
          ['plate', 'R1', 'N1', 'N3', 'N4', 'N9', .2, 'C']]
MESHES = {'rect': [['rmesh', 'M', 1., 2., 3., .4, 'C', dict(x_control=[.7], y_control=[1.5])], ['opening', 'M', 'O', 1., 1., .5, 1.]],
          'plates': [['rmesh', 'M', 1., 2., 2., .4, 'C', dict(element_type='Rect', plane='YZ')], ['opening', 'M', 'O', 0., 1., 1., 1.]],
          'annulus': [['ann', 'M', 1., 3., 1., .3, 'C', dict(axis='Z')]], 'frustrum': [['fru', 'M', 1., 3., 1., 2., .3, 'C', dict(axis='Y')]],
          'cylinder': [['cyl', 'M', 1., 2., 3., .3, 'C', dict(num_elements=5, axis='X')]], 'cylplates': [['cyl', 'M', 1., 2., 2., .3, 'C', dict(num_elements=4, element_type='Rect')]]}
AN = {'analyze': ['analyze', {}], 'dense': ['analyze', dict(sparse=False)], 'linear': ['analyze_linear', {}], 'pdelta': ['pdelta', {}], 'pdense': ['pdelta', dict(sparse=False)],
      'statics': ['analyze', dict(check_statics=True)], 'tagged': ['analyze', dict(combo_tags=['a'])]}
KINDS = {'frame': list(AN), 'braced': ['analyze', 'dense', 'pdelta', 'pdense', 'tagged'], 'shell': ['analyze', 'dense', 'linear'], 'mesh': ['analyze', 'linear']}
KINDS['frame'].remove('tagged')


def build(model):
    m = ops.new_model()
    for op in MODELS[model]:
        p36.do(m, op)
    return m


def read(m, tagged=False):
    return p39.read(m, 'P' if tagged else 'PQ')


@functools.lru_cache(None)
def alone(model, an):
    def f():
        m = build(model)
        ops.apply_real(m, AN[an])
        return read(m, an == 'tagged'), snap(m)
    return p36.afresh(f)


def cases(tier):
    th = tier != 'quick'
    out = []
    for c in range(CHUNKS):
        for k, ans in KINDS.items():
            for a in ans:
                try:
                    alone(k, a)
                except RuntimeError:
                    pass
                if th or (k, a) in (('frame', 'statics'), ('frame', 'pdelta'), ('frame', 'linear'), ('braced', 'analyze'), ('braced', 'pdense'), ('shell', 'analyze')):
                    out += [[k, a, b, c, th, x] for b in (ans if th else [a]) for x in (('K', 'M') if th and a == b else ('K',))]
            out.append([k, 'read', ans[0], c, th, 'K'])
            if th and 'pdelta' in ans:
                out.append([k, 'read', 'pdelta', c, th, 'K'])
    for k in MESHES:
        for x in 'KM':
            out.append([k, 'generate', 'generate', 0, th, x])
    return out


class Stop(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


def run(case, rec):
    rec.history = case
    k, a, b, c, deep, x = case
    X = Stop if x == 'K' else Full

    def act():
        raise X()
    with ops.quiet():
        if a == 'generate':
            return generate(rec, k, x, act, deep)

        def prepared():
            m = build(k)
            if a == 'read':
                ops.apply_real(m, AN[b])
            return m

        def work(m):
            return read(m, b == 'tagged') if a == 'read' else ops.apply_real(m, AN[a])
        m = prepared()
        locs = cut.locations(lambda: work(m))
        for i, (loc, *ns) in enumerate(locs):
            if i % CHUNKS != c:
                continue
            for n in dict.fromkeys(ns if deep else ns[:1]):
                key = '%s:%s:%s:%s:%s:%d' % (k, a, b, x, loc, n)
                m = prepared()
                try:
                    cut.at(lambda: work(m), n, act)
                except (Stop, Full):
                    pass
                except Exception:
                    pass        # turned into an error of its own
                if a != 'read':
                    ops.apply_real(m, AN[b])
                rec.step(2)
                rec.state((k, a, b, loc, n))
                want = alone(k, b)
                what = '%s cut short at %s, then %s' % (a, loc, 'repeated' if a in (b, 'read') else b)
                p36.compare(rec, key, read(m, b == 'tagged'), want[0], what)
                d = difference(snap(m), want[1])
                rec.true(key + ':content', d is None, '%s: the content of the model differs: %s' % (what, d))
                rec.trace()
            rec.outcome((k, a, b, loc))


def content(m):
    for x in m.meshes.values():
        for c in ('x_control', 'y_control'):
            # a line listed twice is the same line
            if hasattr(x, c):
                setattr(x, c, sorted(set(getattr(x, c))))
    return snap(m)


def generate(rec, k, x, act, deep):
    def prepared():
        m = ops.new_model()
        for op in AROUND + MESHES[k]:
            p37.do(m, op)
        return m
    want = prepared()
    want.meshes['M'].generate()
    want = content(want)
    m = prepared()
    for loc, *ns in cut.locations(lambda: m.meshes['M'].generate()):
        for n in dict.fromkeys(ns):
            m = prepared()
            try:
                cut.at(lambda: m.meshes['M'].generate(), n, act)
            except (Stop, Full):
                pass
            except Exception:
                pass        # turned into an error of its own
            m.meshes['M'].generate()
            rec.step(2)
            rec.state((k, loc, n))
            d = difference(content(m), want)
            rec.true('%s:generate:%s:%s:%d' % (k, x, loc, n), d is None, 'generating the mesh cut short at %s, then repeated: %s' % (loc, d))
            rec.trace()
        rec.outcome((k, loc))
