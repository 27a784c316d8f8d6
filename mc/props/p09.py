"""One-way support springs."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, member, sup, lockstep, cmp_disp, cmp_reac, cmp_diagrams, cmp_defl

ID = 'P09'
TITLE = 'One-way support springs act in their stated direction only'
RULE = ('assemblies with up to four support springs x every assignment of {two-way, +, -} x every load vector, all in one model, in '
        'ascending and descending order of definition; beams on rows of up to 12 (thorough: 16) one-way springs pressed and lifted at every node and '
        'many pairs of nodes; every activity pattern is enumerated to find the complementary one')
ASSUMPTIONS = ['combinations for which several complementary patterns exist or a spring displacement is within 1e-9 of zero only have to '
               'satisfy the direction rule', 'analyze_linear() treats all springs as two-way (documented)']


def beam():
    """beam on a row of vertical springs, weakly held at the left end"""
    n = frames.n
    h = [MAT] + [n('N%d' % i, 5*i, 0, 0) for i in range(4)]
    h += [member('M', 'N0', 'N3'), sup('N0', '111110'), ['sspring', 'N0', 'RZ', 4000.]]
    return dict(base=h, ow=[('N%d' % i, 'DY', 8. + 3*i) for i in (1, 2, 3)] + [('N3', 'RZ', 2500.)],
                loads=[['nload', 'N1', 'FY'], ['nload', 'N3', 'FY'], ['nload', 'N2', 'MZ']], scale=(1, 1, 4))


def frame():
    """portal on springs in every kind of freedom, translations and rotations"""
    n = frames.n
    h = [MAT, n('A', 0, 0, 0), n('B', 0, 9, 0), n('C', 11, 9, 2), n('D', 11, 0, 2), member('M1', 'A', 'B'),
         member('M2', 'B', 'C', ['S', 90., 70., 40., 8.]), member('M3', 'D', 'C'), sup('A', '111111'), sup('D', '111000')]
    return dict(base=h, ow=[('B', 'DX', 60.), ('C', 'DZ', 45.), ('B', 'RY', 9000.), ('D', 'RZ', 7000.)],
                loads=[['nload', 'B', 'FX'], ['nload', 'C', 'FZ'], ['nload', 'C', 'MY']], scale=(1, 1, 6))


def mixed():
    """one-way support springs next to a tension-only member, a compression-only spring and a settlement"""
    n = frames.n
    h = [MAT, n('A', 0, 0, 0), n('B', 6, 0, 0), n('C', 12, 0, 0), n('G', 12, 7, 0), n('H', 6, -5, 0), member('M1', 'A', 'B'), member('M2', 'B', 'C'),
         member('T', 'G', 'C', ['S', 3., 5., 2., .01], tension_only=True), ['spring', 'S', 'H', 'B', 4.0, dict(comp_only=True)],
         ['release', 'T', [False]*4 + [True]*2 + [False]*4 + [True]*2],
         sup('A', '111101'), sup('G', '111111'), sup('H', '111111'), ['disp', 'A', 'DY', -.4], ['sspring', 'C', 'DZ', 2.0]]
    return dict(base=h, ow=[('B', 'DY', 5.), ('C', 'DY', 9.), ('C', 'RY', 300.), ('B', 'RX', 200.)],
                loads=[['nload', 'B', 'FY'], ['nload', 'C', 'FY'], ['nload', 'C', 'FZ'], ['nload', 'B', 'MX']], scale=(1, 1, 1, 3))


SETS = {'beam': beam, 'frame': frame, 'mixed': mixed}


TIER = 'quick'


def cases(tier):
    global TIER
    TIER = tier
    th = tier != 'quick'
    out = []
    for s in SETS:
        for a in itertools.product('B+-', repeat=4):
            if not th and a.count('B') > (2 if s == 'beam' else 1):
                continue
            for how in ('up', 'down') + (('dense', 'one', 'pdelta', 'linear') if th else ()):
                if how == 'down' and not th and a.count('B'):
                    continue
                out.append([s, ''.join(a), how])
    if not th:
        out += [['found', 'Y', n, sg, 'up'] for n in (3, 5, 8, 11) for sg in '+-'] + [['found', 'Z', 7, '+', 'up'], ['found', 'Z', 7, '-', 'down'], ['found', 'Y', 8, '+', 'dense'], ['found', 'Z', 5, '-', 'dense'],
                                                                                                 ['found', 'Y', 6, '+', 'pdelta']]
        out += [['beam', 'BBBB', 'up'], ['frame', '+-+-', 'dense'], ['frame', '+-+-', 'one'], ['beam', '+-+-', 'pdelta'], ['frame', '--++', 'linear']]
    else:
        out += [['found', ax, n, sg, how] for ax in 'YZ' for n in range(3, 16) for sg in '+-' for how in ('up', 'dense', 'one', 'pdelta')]
    return out


VALS = (0.0, 5.0, -7.0)


def foundation(case, rec):
    """beam on a row of one-way springs, pressed down and lifted at every node in turn"""
    _, ax, n, sg, how = case
    h = [MAT] + [frames.n('N%d' % i, 4*i, 0, 0) for i in range(n + 1)] + [member('M', 'N0', 'N%d' % n, ['S', .3, .5, 1., 8.])]
    h += [sup('N0', '101100' if ax == 'Y' else '110100')] + ([sup('N%d' % n, '001000')] if ax == 'Y' else [sup('N%d' % n, '010000')])
    h += [['sspring', 'N%d' % i, 'D' + ax, 6. + i % 3, sg] for i in range(n + 1)]
    d = 1.0 if sg == '+' else -1.0
    h.append(['dload', 'M', 'F' + ax, .7*d, .7*d, None, None, 'P'])
    names = []
    for j in range(n + 1):
        h.append(['nload', 'N%d' % j, 'F' + ax, -d, 'U%d' % j])
        for f in (3.0, 6.0, 9.0, 14.0):
            names.append('c%d,%g' % (j, f))
            h.append(['combo', names[-1], {'P': 1.0, 'U%d' % j: f}, [names[-1]]])
    for j, k in itertools.combinations(range(n + 1), 2):
        if j % 2 == k % 3:
            names.append('c%d+%d' % (j, k))
            h.append(['combo', names[-1], {'P': 1.0, 'U%d' % j: 5.0, 'U%d' % k: 4.0}, [names[-1]]])
    m, r = lockstep(rec, h)
    judge(rec, ':'.join(map(str, case)), h, m, r, names, how)


def run(case, rec):
    if case[0] == 'found':
        return foundation(case, rec)
    s, a, how = case
    st = SETS[s]()
    h = list(st['base'])
    for (nn, d, k), x in zip(st['ow'], a):
        h.append(['sspring', nn, d, k] + ([] if x == 'B' else [x]))
    vecs = [v for v in itertools.product(VALS, repeat=len(st['loads'])) if any(v)]
    if len(st['loads']) > 3:
        vecs = [v for v in vecs if v.count(0.0) <= 1]
    for i, l in enumerate(st['loads']):
        h.append(l + [float(st['scale'][i]), 'K%d' % i])
    names = []
    for v in (vecs if how != 'down' else vecs[::-1]):
        nm = 'c' + ','.join('%g' % x for x in v)
        names.append(nm)
        h.append(['combo', nm, {'K%d' % i: x for i, x in enumerate(v) if x}, [nm]])
    m, r = lockstep(rec, h)
    judge(rec, '%s:%s:%s' % (s, a, how), h, m, r, names, how)


def judge(rec, key, h, m, r, names, how):
    if how == 'linear':
        ops.apply_real(m, ['analyze_linear', {}])
        for c in names:
            sol = r.solve(c)
            cmp_disp(rec, key + ':' + c, m, sol, c)
            cmp_reac(rec, key + ':' + c, m, sol, r, c)
        return
    an = ['pdelta', {}] if how == 'pdelta' else ['analyze', dict(sparse=how != 'dense')]
    try:
        if how == 'one':       # combination by combination through tags, on models of their own
            raise Refused
        ops.apply_real(m, an)
        rec.step()
    except Exception as e:
        if how != 'one' and not any(w in str(e) for w in ('diverge', 'nstable', 'singular')):
            raise
        for c in names:
            m = ops.build(h)
            try:
                ops.apply_real(m, [an[0], dict(an[1], combo_tags=[c])])
                rec.step()
            except Exception as e:
                if not any(w in str(e) for w in ('diverge', 'nstable', 'singular')):
                    raise
                rec.true(key + ':' + c + ':refused', not settles(r, c), 'combination %s refused (%s) although it has a solution that the '
                         'iteration from all springs active reaches' % (c, e))
                continue
            check(rec, key, m, r, c, how)
        return
    for c in reversed(names) if how == 'up' else names:
        check(rec, key, m, r, c, how)


class Refused(Exception):
    pass


def wrong_now(r, sol, p, c):
    """one-way elements whose state contradicts the displacements, and whether some are too close to call"""
    from . import p08
    dsc = max(np.abs(d).max() for d in sol.D.values())
    out, marginal = set(), False
    for e in r.one_way():
        if e[0] == 'n':
            d = sol.D[e[1]][e[2]]
            marginal |= abs(d) < 1e-8*dsc
            w = d < 0 if r.nodes[e[1]]['spr'][e[2]][1] == '+' else d > 0
            if (e in p) != w:
                out.add(e)
        else:
            fs = p08.would(r, sol, e)
            marginal |= any(abs(f) < 1e-7*sol.fs for f in fs)
            if (e in p) != any(p08.bad(r, e, f, 0) for f in fs):
                out.add(e)
    return out, marginal


def settles(r, c):
    """toggling every contradicted element at once, starting from all active, reaches a fixed point"""
    p, near = frozenset(), False
    for _ in range(25):
        try:
            sol = r.solve(c, p)
        except ref.Unstable:
            return False
        w, marg = wrong_now(r, sol, p, c)
        if marg:
            return False
        w = {e for e in w if e[0] == 'n' or e not in p}
        if not w:
            return True
        p = frozenset(p ^ w)
    return False


def check(rec, key, m, r, c, how):
    k = key + ':' + c
    pd = how == 'pdelta'
    got, rx = ops.disp(m, c), ops.reac(m, c)
    good, marginal = [], False
    shown = TIER == 'quick' or len(r.one_way()) > 6
    if shown:
        # the pattern shown by the reported displacements; the rest of the check proves it consistent
        p = set()
        for e in r.one_way():
            if e[0] == 'n':
                u = got[e[1]][e[2]]
                if u < 0 if r.nodes[e[1]]['spr'][e[2]][1] == '+' else u > 0:
                    p.add(e)
            elif not (m.members if e[0] == 'm' else m.springs)[e[1]].active[c]:
                p.add(e)
        pats = [frozenset(p)]
    else:
        pats = list(r.patterns())
    for p in pats:
        try:
            sol = r.solve_pdelta(c, p)[0] if pd else r.solve(c, p)
        except ref.Unstable:
            continue
        w, mg = wrong_now(r, sol, p, c)
        marginal |= mg
        if not w or (shown and all(e[0] != 'n' for e in w)):
            good.append((p, sol))
    if shown and not marginal:
        rec.true(k + ':consistent', bool(good), 'combo %s: reported displacements do not belong to any consistent set of active springs' % c)
    # the direction rule and the reaction law need no reference solution
    dsc = max(np.abs(d).max() for d in got.values())
    fsc = max(np.abs(d).max() for d in rx.values())
    for nn, nd in r.nodes.items():
        for d, (ks, sg) in nd['spr'].items():
            if nd['sup'][d]:
                continue
            u = got[nn][d]
            act = sg is None or (u > 0 if sg == '+' else u < 0)
            rec.close('%s:law:%s:%d' % (k, nn, d), rx[nn][d], -ks*u if act else 0.0, 1e-6, max(fsc, ks*dsc*1e-2),
                      'combo %s node %s spring %s%s displacement %r reaction' % (c, nn, ref.DOFS[d], sg or '', u))
    rec.trace()
    if len(good) == 1 and not marginal and not pd:
        p, sol = good[0]
        cmp_disp(rec, k, m, sol, c)
        cmp_reac(rec, k, m, sol, r, c)
        rec.outcome((key.split(':')[0], p))
        if how == 'up':
            for n in r.members:
                if ('m', n) not in p:
                    cmp_diagrams(rec, k, m, sol, n, c)
    elif len(good) == 1 and not marginal:
        cmp_disp(rec, k, m, good[0][1], c, 1e-6)
