"""Tension-only and compression-only members and springs."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, member, sup, rel, lockstep, cmp_disp, cmp_reac, cmp_diagrams

ID = 'P08'
TITLE = 'Tension-only and compression-only elements never carry the forbidden force'
RULE = ('assemblies of one-way members/springs x every assignment of {two-way, tension-only, compression-only} x load vectors, '
        'all combinations in one model; beams on (hung from) rows of up to 11 (thorough: 15) one-way springs or members lifted at every node; all activity patterns are enumerated to find the admissible ones')
ASSUMPTIONS = ['the set of inactive elements must be either complementary (idle elements would otherwise carry the forbidden force) '
               'or the result of repeatedly dropping offending elements, which is what the code documents (no reactivation)',
               'load vectors for which some force is within 1e-7 of zero only have to satisfy the sign rule and equilibrium']

T, C, B = dict(tension_only=True), dict(comp_only=True), {}
KIND = {'T': T, 'C': C, 'B': B}


def xframe():
    """braced portal: columns fixed, beam, two crossing pinned diagonals and a knee"""
    n = frames.n
    return dict(base=[MAT, n('N1', 0, 0, 0), n('N2', 0, 12, 0), n('N3', 15, 12, 0), n('N4', 15, 0, 0), n('N5', 4, 12, 0),
                      member('M1', 'N1', 'N2'), member('M2', 'N2', 'N3'), member('M3', 'N4', 'N3'),
                      sup('N1', '111111'), sup('N4', '111111')],
                ow=[('m', 'B1', 'N1', 'N3'), ('m', 'B2', 'N4', 'N2'), ('m', 'B3', 'N1', 'N5')],
                loads=[('N2', 'FX'), ('N3', 'FY'), ('N5', 'FY')])


def star():
    """a node held by a soft grounded column and four springs, some to other free nodes"""
    n = frames.n
    return dict(base=[MAT, n('O', 0, 0, 0), n('G', 0, -9, 0), n('A', 6, 1, 0), n('D', -5, 2, 0), n('E', 0, 3, 6), n('F', 6, 9, 0),
                      member('CO', 'G', 'O', ['S', 60., 150., 25., 1.]), sup('G', '111111'), sup('A', '111111'), sup('D', '111111'),
                      sup('E', '111111'), sup('F', '111111')],
                ow=[('s', 'S1', 'O', 'A', 90.), ('s', 'S2', 'D', 'O', 60.), ('s', 'S3', 'O', 'E', 75.), ('s', 'S4', 'F', 'O', 40.)],
                loads=[('O', 'FX'), ('O', 'FZ'), ('O', 'FY')])


def chain():
    """a cantilevered mast with guys at two levels, springs and members mixed"""
    n = frames.n
    return dict(base=[MAT, n('N0', 0, 0, 0), n('N1', 0, 10, 0), n('N2', 0, 20, 0), n('G1', 8, 0, 0), n('G2', -8, 0, 0), n('G3', 0, 0, 9),
                      member('K1', 'N0', 'N1'), member('K2', 'N1', 'N2'), sup('N0', '111111'), sup('G1', '111111'), sup('G2', '111111'),
                      sup('G3', '111111')],
                ow=[('m', 'B1', 'G1', 'N1'), ('m', 'B2', 'N1', 'G2'), ('s', 'S1', 'G1', 'N2', 500.), ('s', 'S2', 'N2', 'G2', 300.)],
                loads=[('N2', 'FX'), ('N1', 'FX'), ('N2', 'FZ')])


def skewed():
    """one-way elements along every kind of direction (axis, face diagonal, space diagonal), with a node on one of them"""
    n = frames.n
    return dict(base=[MAT, n('O', 0, 0, 0), n('Q', 0, 7, 0), n('A', 0, 0, 8), n('D', 5, 5, 5), n('E', -6, 0, 4), n('V', 2., 2., 2.),
                      member('CO', 'Q', 'O', ['S', 60., 150., 25., 1.]), sup('Q', '111111'), sup('A', '111111'), sup('D', '111111'),
                      sup('E', '111111')],
                ow=[('m', 'B1', 'O', 'A'), ('m', 'B2', 'D', 'O'), ('m', 'B3', 'O', 'E')],
                extra=[['sspring', 'V', d, k] for d, k in (('DX', .02), ('DY', .03), ('DZ', .02), ('RX', 1.), ('RY', 1.), ('RZ', 1.))],
                loads=[('O', 'FX'), ('O', 'FY'), ('O', 'FZ')])


SETS = {'xframe': xframe, 'star': star, 'chain': chain, 'skewed': skewed}


def cases(tier):
    out = []
    th = tier != 'quick'
    for s, f in SETS.items():
        k = len(f()['ow'])
        for a in itertools.product('TCB', repeat=k):
            if all(x == 'B' for x in a):
                continue
            if not th and k == 4 and 'B' in a[2:] and a != tuple('CTBT'):
                continue
            some = a in (('T',)*k, ('C',)*k, tuple('TCTC'[:k]), tuple('CTBT'[:k]))
            for how in (('analyze', 'dense', 'pdelta') if th or some else ('analyze',)):
                out.append([s, ''.join(a), how])
    rows = [['row', k, n, how] for k in 'smx' for n in (range(3, 15) if th else (3, 6, 10)) for how in (('analyze', 'dense') if th else ('analyze',))]
    return sorted(out, key=lambda c: -c[1].count('B')) + rows


VALS = (0.0, 6.0, -4.0)


def row(case, rec):
    """beam on a row of compression-only springs or members, or hung from tension-only members, lifted at every node"""
    _, kind, n, how = case
    up = 5.0 if kind == 'x' else -5.0
    h = [MAT] + [frames.n('N%d' % i, 4*i, 0, 0) for i in range(n + 1)] + [frames.n('G%d' % i, 4*i, up, 0) for i in range(n + 1)]
    h += [member('M', 'N0', 'N%d' % n, ['S', .3, .5, 1., 8.]), sup('N0', '101100'), sup('N%d' % n, '001000')] + [sup('G%d' % i, '111111') for i in range(n + 1)]
    for i in range(n + 1):
        if kind == 's':
            h.append(['spring', 'S%d' % i, 'G%d' % i, 'N%d' % i, 6. + i % 3, C])
        else:
            h += [member('H%d' % i, 'G%d' % i, 'N%d' % i, ['S', 3., 5., 2., .02 + .01*(i % 3)], **(T if kind == 'x' else C)),
                  rel('H%d' % i, '000000000011')]
    h.append(['dload', 'M', 'FY', -.7, -.7, None, None, 'P'])
    h += [['nload', 'N%d' % j, 'FY', 1.0, 'U%d' % j] for j in range(n + 1)]
    r = ref.Ref()
    for op in h:
        r.apply(op)
    want = [({'P': 1.0, 'U%d' % j: f}) for j in range(n + 1) for f in (3.0, 6.0, 9.0, 14.0)]
    want += [({'P': 1.0, 'U%d' % j: 5.0, 'U%d' % k: 4.0}) for j, k in itertools.combinations(range(n + 1), 2) if (j + k) % 4 == 1]
    names = []
    for f in want:
        # only combinations for which dropping the offending elements leads to a stable structure
        r.apply(['combo', 'try', f])
        p, cache = frozenset(), {}
        while True:
            s = solved(r, 'try', p, cache)
            if s is None:
                break
            q = p | {e for e in r.one_way() if any(bad(r, e, x, 0) for x in s[1][e])}
            if q == p:
                names.append('c%s' % '+'.join('%s*%g' % x for x in sorted(f.items()) if x[0] != 'P'))
                h.append(['combo', names[-1], f])
                rec.state((key_of(case), len(p)))
                break
            p = q
    m, r = lockstep(rec, h)
    ops.apply_real(m, ['analyze', dict(sparse=how != 'dense')])
    rec.step()
    ow = r.one_way()
    for c in reversed(names):
        check(rec, key_of(case), m, r, c, ow, how)
        rec.trace()


def key_of(case):
    return ':'.join(map(str, case))


def run(case, rec):
    if case[0] == 'row':
        return row(case, rec)
    s, a, how = case
    st = SETS[s]()
    h = list(st['base']) + st.get('extra', [])
    for o, x in zip(st['ow'], a):
        kw = KIND[x]
        if o[0] == 'm':
            h.append(member(o[1], o[2], o[3], ['S', 3., 5., 2., 1.4], **kw))
            h.append(rel(o[1], '000011000011'))
        else:
            h.append(['spring', o[1], o[2], o[3], o[4], kw])
    vecs = [v for v in itertools.product(VALS, repeat=len(st['loads'])) if any(v)]
    for i, (nn, d) in enumerate(st['loads']):
        h.append(['nload', nn, d, 1.0, 'K%d' % i])
    names = []
    for v in vecs:
        nm = 'c' + ','.join('%g' % x for x in v)
        names.append(nm)
        h.append(['combo', nm, {'K%d' % i: x for i, x in enumerate(v) if x}])
    m, r = lockstep(rec, h)
    if s in ('xframe', 'skewed'):
        # loads on the one-way members themselves (a brace with self-weight)
        for i, o in enumerate(st['ow']):
            for j, l in enumerate([['dload', o[1], 'FY', -.02, -.02, None, None], ['ptload', o[1], 'Fz', .3, 2.0],
                                   ['ptload', o[1], 'Fx', .7, 3.0]]):
                for op in (l + ['W%d%d' % (i, j)], ['combo', 'w%d%d' % (i, j), {'W%d%d' % (i, j): 1.0, 'K0': -4.0, 'K1': 6.0}]):
                    ops.apply_real(m, op)
                    r.apply(op)
                    h.append(op)
                names.append('w%d%d' % (i, j))
    key = '%s:%s:%s' % (s, a, how)
    if how == 'pdelta':
        ops.apply_real(m, ['pdelta', {}])
    else:
        ops.apply_real(m, ['analyze', dict(sparse=how != 'dense')])
    rec.step()
    ow = r.one_way()
    # half of the models are asked for the combination analysed last first
    for c in names if how != 'analyze' or len(a) % 2 else reversed(names):
        check(rec, key, m, r, c, ow, how)
        rec.trace()


def would(r, sol, el):
    """compression-positive forces the element would carry, one per piece, if it were active"""
    k, n = el
    if k == 's':
        return [r.spring_axial(sol, n)]
    mm = r.members[n]
    if mm['dist'] and sol.els[n][0].f is not None:
        return list(sol.extremes(n)['Fx'])
    ch = r.chain(n)
    out = []
    for (a, xa), (b, xb) in zip(ch[:-1], ch[1:]):
        ex = np.subtract(r.nodes[b]['p'], r.nodes[a]['p'])
        L = np.linalg.norm(ex)
        out.append(r.mats[mm['mat']][0]*mm['A']/L*((sol.D[a][:3] - sol.D[b][:3]) @ (ex/L)))
    return out


def bad(r, el, f, tol):
    """is force f (compression +) forbidden?"""
    mm = r.members[el[1]] if el[0] == 'm' else r.springs[el[1]]
    return (mm['to'] and f > tol) or (mm['co'] and f < -tol)


def solved(r, c, p, cache):
    if p not in cache:
        try:
            sol = r.solve(c, p)
            fs = {e: would(r, sol, e) for e in r.one_way()}
            cache[p] = (sol, fs, max([abs(x) for f in fs.values() for x in f] + [sol.fs]))
        except ref.Unstable:
            cache[p] = None
    return cache[p]


def admissible(r, c, ow, cache, real=None):
    """complementary patterns and the outcome of dropping every offending element until none is left;
    second value: some force was too close to zero to call"""
    good, marginal = set(), False
    for p in r.patterns() if len(ow) <= 6 else [real]:
        s = solved(r, c, p, cache)
        if s is None:
            continue
        marginal |= any(abs(x) < 1e-7*s[2] for f in s[1].values() for x in f)
        if all((e in p) == any(bad(r, e, x, 0) for x in s[1][e]) for e in ow):
            good.add(p)
    p = frozenset()
    while True:
        s = solved(r, c, p, cache)
        if s is None:
            break
        q = p | {e for e in ow if any(bad(r, e, x, 0) for x in s[1][e])}
        if q == p:
            good.add(p)
            break
        p = q
    return good, marginal


def check(rec, key, m, r, c, ow, how):
    real = frozenset(e for e in ow if not (m.members[e[1]].active[c] if e[0] == 'm' else m.springs[e[1]].active[c]))
    k = key + ':' + c
    rec.outcome((key.split(':')[0], real))
    linear = how != 'pdelta'
    sol = r.solve(c, real) if linear else r.solve_pdelta(c, real)[0]
    sc = max([abs(x) for e in ow for x in would(r, sol, e)] + [sol.fs])
    # no element carries the forbidden force, idle elements carry nothing, in every query
    for e in ow:
        if e[0] == 's':
            f = [m.springs[e[1]].axial(c)]
        else:
            mem = m.members[e[1]]
            L = mem.L()
            f = [mem.axial(x, c) for x in (0, .4*L, L)] + [mem.max_axial(c), mem.min_axial(c)]
        for x in f:
            if e in real:
                rec.true(k + ':idle:%s' % e[1], abs(x) <= 1e-6*sc, 'inactive element %s reports axial force %r in %s' % (e[1], x, c))
            else:
                rec.true(k + ':sign:%s' % e[1], not bad(r, e, x, 1e-6*sc), 'element %s carries forbidden axial force %r in %s' % (e[1], x, c))
    for n in r.members:
        if ('m', n) in real:
            mem = m.members[n]
            L = mem.L()
            z = [mem.shear('Fy', .3*L, c), mem.moment('Mz', .3*L, c), mem.torque(.3*L, c), mem.max_moment('Mz', c), mem.min_shear('Fz', c)]
            z += (list(np.ravel(mem.f(c))) if c[0] == 'c' else []) + list(mem.moment_array('Mz', 5, c)[1]) + list(mem.axial_array(5, c)[1])
            rec.true(k + ':idleall:%s' % n, max(abs(x) for x in z) <= 1e-6*sc, 'inactive member %s reports forces %s' % (n, z))
    if linear:
        cmp_disp(rec, k, m, sol, c)
        cmp_reac(rec, k, m, sol, r, c, fscale=sc)
        for n in r.members:
            if ('m', n) not in real:
                cmp_diagrams(rec, k, m, sol, n, c)
        good, marginal = admissible(r, c, ow, {}, real)
        if not marginal:
            rec.true(k + ':pattern', real in good, 'combo %s: inactive elements are %s; admissible: %s' % (
                c, sorted(real), [sorted(g) for g in good]))
