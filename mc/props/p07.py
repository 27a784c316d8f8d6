"""All analysis entry points and solver options give the same solution of the same linear model."""
import numpy as np

from .. import frames, ops, ref
from ..common import lockstep
from .p06 import results

ID = 'P07'
TITLE = 'Solver options and entry points agree on linear structures'
RULE = ('every structure and deviation x {analyze, analyze_linear} x {sparse, dense} x {check_stability, check_statics, log} '
        'on fresh models and on one model re-analysed with every option in turn; P-Delta sparse, dense, with options and before and after the other analyses, and '
        'against first order where no member carries axial force')
ASSUMPTIONS = ['linear structures without one-way elements']
OPTS = [('analyze', dict(sparse=False)), ('analyze', dict(check_stability=False)), ('analyze', dict(check_statics=True)),
        ('analyze', dict(log=True)), ('analyze_linear', dict()), ('analyze_linear', dict(sparse=False)),
        ('analyze_linear', dict(check_stability=False, check_statics=True)), ('analyze_linear', dict(log=True, sparse=False)),
        ('analyze', dict(max_iter=1)), ('analyze', dict(spring_tolerance=1e-3, member_tolerance=1e-3))]


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in frames.ALL:
        for v in frames.variants(s, 1 if th or s in ('cont', 'springs') else 0):
            out.append([s, v])
    out += [['noaxial', o, k] for o in ('+X', 'XYZ', '-Y', '-Z') for k in range(4)]
    return out


def run(case, rec):
    if case[0] == 'noaxial':
        return noaxial(case, rec)
    s, v = case
    h, loads = frames.history(s, v)
    full = h + [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)] + [
        ['combo', 'A', {'K0': 1.2, 'K1': .5}], ['combo', 'B', {'K2': -1.0, 'K0': .3}], ['combo', 'Z', {}]]
    r = ref.Ref()
    for op in full:
        r.apply(op)
    try:
        r.solve('A')
    except ref.Unstable:
        return
    key = s + ':' + '+'.join(v)
    m, r = lockstep(rec, full)
    ops.apply_real(m, ['analyze', {}])
    base = {c: dict(results(m, c)) for c in 'ABZ'}
    again = ops.build(full)
    for i, (f, o) in enumerate(OPTS):
        for which in (0, 1):
            if which == 0:
                if v and i % 3:
                    continue
                mm = ops.build(full)
            else:
                mm = again
            ops.apply_real(mm, [f, o])
            rec.step()
            for c in 'ABZ':
                for lab, got in results(mm, c):
                    g = lab.split(':')[0]
                    sc = max([np.abs(x).max() for c2 in 'ABZ' for l, x in base[c2].items() if l.split(':')[0] == g] + [1e-6])
                    rec.close('%s:%d:%s:%s:%s' % (key, i, 'fresh' if which == 0 else 'again', c, lab), got, base[c][lab], 1e-7, sc,
                              '%s(%s) %s %s versus analyze()' % (f, o, c, lab))
                rec.trace()
                rec.outcome((key, i, which, c))
    pdelta(rec, key, full, again, base)


def pdelta(rec, key, full, again, base):
    """second order analysis: sparse and dense, with and without the checks, on new models and after other analyses"""
    m = ops.build(full)
    ops.apply_real(m, ['pdelta', {}])
    want = {c: dict(results(m, c)) for c in 'ABZ'}
    scale = {}
    for src in (base, want):
        for c in 'ABZ':
            for l, x in src[c].items():
                g = l.split(':')[0]
                scale[g] = max(scale.get(g, 1e-6), float(np.abs(x).max()))
    for i, (mm, f, o) in enumerate(((None, 'pdelta', dict(sparse=False)), (None, 'pdelta', dict(check_stability=False, log=True)),
                                    (again, 'pdelta', dict(sparse=False)), (again, 'analyze', {}), (again, 'pdelta', {}),
                                    (again, 'analyze_linear', dict(sparse=False)), (m, 'pdelta', {}), (m, 'pdelta', dict(sparse=False)),
                                    (m, 'analyze', {}))):
        if mm is None:
            mm = ops.build(full)
        ops.apply_real(mm, [f, o])
        rec.step()
        ref_ = want if f == 'pdelta' else base
        for c in 'ABZ':
            for lab, got in results(mm, c):
                rec.close('%s:pd%d:%s:%s' % (key, i, c, lab), got, ref_[c][lab], 1e-6, scale[lab.split(':')[0]],
                          '%s(%s) %s %s versus the first %s' % (f, o, c, lab, f))
            rec.trace()
            rec.outcome((key, 'pd', i, c))


def noaxial(case, rec):
    """transversely loaded member: second order analysis must reproduce the first order result"""
    _, o, k = case
    from ..common import ORIENT, sup
    u = ORIENT[o]
    loads = [['ptload', 'M', 'Fy', 2.0, 4.0], ['dload', 'M', 'Fz', 1.0, .2, 2.0, 9.0], ['ptload', 'M', 'Mx', 3.0, 5.0],
             ['ptload', 'M', 'Mz', 4.0, 6.0]]
    h = frames.single(u) + [sup('I', '111111'), ['node', 'V'] + [(1, 2, 3)[c] + 3.7*u[c] for c in range(3)]] + [loads[k] + ['A'], ['combo', 'C', {'A': 1.0}]]
    m, r = lockstep(rec, h)
    ops.apply_real(m, ['analyze', {}])
    base = dict(results(m, 'C'))
    for sp in (True, False):
        m2 = ops.build(h)
        ops.apply_real(m2, ['pdelta', dict(sparse=sp)])
        rec.step()
        for lab, got in results(m2, 'C'):
            rec.close('%s:%s:%s' % (':'.join(map(str, case)), sp, lab), got, base[lab], 1e-6, max(np.abs(base[lab]).max(), 1e-3),
                      'P-Delta (sparse=%s) %s' % (sp, lab))
        rec.trace()
        rec.outcome((case, sp))
