"""Structures that move without resistance under their loads are refused; stable ones are solved."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, ORIENT, cmp_disp, lockstep, member, rel, sup

ID = 'P22'
TITLE = 'Unstable structures are refused, never solved'
RULE = ('every pattern of the twelve support freedoms of a member; every pattern of its twelve end releases on spring supports; every '
        'pattern of hinges and vertical supports of a three-span beam; single bars of many lengths and sizes on hinges and slides; every subset of the bars of a braced panel, made of members or of '
        'springs; every state (free, supported, sprung, displaced) of the freedoms of a node held by springs; every corner support pattern of a plate and a quad patch; every structure with up to one (thorough: two) deviations; '
        'each with every entry point and solver option')
ASSUMPTIONS = ['a structure that is unstable in a way its loads do not set in motion may be refused or solved in equilibrium',
               'stability is decided by the rank of the reference stiffness matrix (gap of six orders of magnitude required)']
OPTS = [('analyze', {}), ('analyze', dict(sparse=False)), ('analyze_linear', {}), ('analyze_linear', dict(sparse=False)),
        ('analyze', dict(check_stability=False)), ('pdelta', {}), ('pdelta', dict(sparse=False)),
        ('analyze_linear', dict(check_stability=False, sparse=True)), ('pdelta', dict(check_stability=False))]
BITS = ['%06d' % int(bin(i)[2:]) for i in range(64)]


def cases(tier):
    th = tier != 'quick'
    out = []
    for o in (list(ORIENT) if th else ['+X', 'XYZ']):
        out += [['sup', o, b] for b in BITS]
    for o in (['+X', '-Y', 'XYZ', '+Z'] if th else ['XYZ']):
        out += [['rel', o, b] for b in BITS]
    out += [['gerber', ''.join(b)] for b in itertools.product('01', repeat=6)]
    out += [['truss', k, s] for k in ('m', 's') for s in range(4)]
    for kind in ('quad', 'plate'):
        for pl in ('XY', 'SK') if not th else ('XY', 'YZ', 'XZ', 'SK'):
            out += [['shell', kind, pl, b] for b in range(8)]
    for s in frames.ALL:
        for v in frames.variants(s, 2 if th and s in ('portal', 'springs') else 1):
            out.append(['dev', s, v])
    out += [['tc', n] for n in range(16)]
    out += [['bar', d, L] for d in 'XYZ' for L in range(7 if th else 3)]
    out += [['soft', i] for i in range(8)]
    out += [['units', s, u] for s in (range(4) if th else (1, 2)) for u in ((.3048, 4448.0), (304.8, 4.448), (2.54, 1e-6))]
    out += [['pin', k, a, b] for k in range(3) for a in 'fsk' + ('e' if th or k == 2 else '') for b in 'fsk' + ('e' if th or k == 2 else '')]
    return out


def judge(rec, key, h, opts, r=None, pdelta_factor=True):
    """one history, several solver options"""
    if r is None:
        r = ref.Ref()
        for op in h:
            r.apply(op)
    un = sol = None
    try:
        sol = r.solve('C')
    except ref.Unstable as e:
        un = e
        ex, gap = e.excitation()
        if 1e-12 < ex < 1e-5 or gap < 1e-9:
            return                  # numerically ambiguous: not decided
    rec.history = h
    for f, o in opts:
        lab = '%s:%s' % (key, f + '/'.join('%s=%s' % kv for kv in sorted(o.items())))
        m = ops.build(h)
        rec.step()
        try:
            ops.apply_real(m, [f, o])
            refused = None
        except Exception as e:
            refused = e
        rec.trace()
        rec.outcome((lab, un is None, refused is None))
        if un is None:
            if not rec.true(lab + ':refused', refused is None, 'stable structure refused by %s(%s): %r' % (f, o, refused)):
                continue
            if f != 'pdelta':
                cmp_disp(rec, lab, m, sol, 'C')
            else:
                rec.true(lab + ':finite', all(np.isfinite(d).all() for d in ops.disp(m, 'C').values()), 'P-Delta results are not finite')
            continue
        if refused is not None:
            continue
        D = ops.disp(m, 'C')
        big = max(np.abs(d).max() for d in D.values())
        if ex >= 1e-5:
            rec.fail(lab + ':solved', '%s(%s) solved a structure its loads move without resistance (share %.2g); largest displacement %g' % (
                f, o, ex, big))
        elif not np.isfinite(big):
            rec.fail(lab + ':nan', '%s(%s) left displacements that are not numbers' % (f, o))
        elif f != 'pdelta':
            res = un.residual(D)
            rec.true(lab + ':balance', res < 1e-4, '%s(%s) solved an unstable structure without equilibrium (out of balance %.2g)' % (f, o, res))


def pick(*k):
    """three options per history, all options across neighbouring histories"""
    i = sum(k)
    return [OPTS[0], OPTS[1 + i % 8], OPTS[1 + (i*3 + 4) % 8]]


def supc(case, rec):
    _, o, b = case
    for i, a in enumerate(BITS):
        for load in (0, 1):
            if load and i % 4:
                continue
            h = frames.single(ORIENT[o]) + [sup('I', a), sup('J', b)]
            h += [['ptload', 'M', 'Fz', 1.0, 3.0, 'K']] if load else [['nload', 'J', 'FX', 1.0, 'K'], ['nload', 'J', 'MZ', .3, 'K'],
                                                                       ['nload', 'I', 'FY', .4, 'K'], ['nload', 'I', 'MX', .7, 'K'],
                                                                       ['nload', 'I', 'FZ', -.2, 'K'], ['ptload', 'M', 'Fy', 1.0, 3.0, 'K']]
            h.append(['combo', 'C', {'K': 1e-3}])
            rec.state((case, i, load))
            judge(rec, '%s:%d' % (':'.join(map(str, case)), i), h, pick(i, int(b, 2), load) if not load else OPTS[:1])


def relc(case, rec):
    _, o, b = case
    for i, a in enumerate(BITS):
        h = frames.single(ORIENT[o]) + [rel('M', a + b)]
        for n in 'IJ':
            for k, d in enumerate(('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')):
                h.append(['sspring', n, d, (7., 11., 13., 450., 350., 500.)[k]])
        loads = [['nload', 'J', 'FX', 1.0], ['nload', 'I', 'MZ', .5], ['ptload', 'M', 'Fy', 1.0, 3.0], ['dload', 'M', 'Fx', .1, .2, None, None],
                 ['ptload', 'M', 'Mx', 2.0, 4.0], ['dload', 'M', 'Fz', .1, .2, 1.0, 9.0]]
        for lset in ((0, 1), (2, 3, 4, 5)):
            hh = h + [list(loads[k]) + ['K'] for k in lset] + [['combo', 'C', {'K': 1e-3}]]
            rec.state((case, i, lset))
            judge(rec, '%s:%d:%d' % (':'.join(map(str, case)), i, len(lset)), hh, pick(i, int(b, 2), lset[0])[:2])


def gerber(case, rec):
    """three members in a line; hinges at any of six member ends, vertical supports at any of four nodes"""
    _, hb = case
    for sb in itertools.product('01', repeat=4):
        for o, up in (('+X', 'Fy'), ('XY', 'Fy')):
            u = ORIENT[o]
            h = [MAT] + [['node', 'N%d' % k] + [1 + 5.0*k*u[0], 2 + 5.0*k*u[1], 3.0] for k in range(4)]
            for k in range(3):
                h.append(member('M%d' % k, 'N%d' % k, 'N%d' % (k + 1)))
                h.append(rel('M%d' % k, '00000%s00000%s' % (hb[2*k], hb[2*k + 1])))
            # lateral and torsional freedoms held everywhere; axial held at the first node; vertical as enumerated
            for k in range(4):
                h.append(sup('N%d' % k, '%s%s1110' % ('1' if k == 0 else '0', sb[k])) if o == '+X' else
                         sup('N%d' % k, ('11' if k == 0 else '00') + '1110'))
                if o != '+X' and sb[k] == '1':
                    h.append(['sspring', 'N%d' % k, 'DY', 50.0])
            h += [['dload', 'M0', up, -.1, -.1, None, None, 'K'], ['ptload', 'M1', up, -.7, 2.0, 'K'], ['ptload', 'M2', 'Mz', .3, 1.0, 'K'],
                  ['combo', 'C', {'K': 1e-3}]]
            rec.state((case, sb, o))
            judge(rec, '%s:%s:%s' % (':'.join(case), ''.join(sb), o), h, pick(int(hb, 2), int(''.join(sb), 2)))


PANEL = [(0, 0), (6, 0), (6.5, 5), (0, 4)]


def truss(case, rec):
    """all subsets of the six bars between four joints, pinned bars made of members or springs, four support layouts"""
    _, kind, s = case
    pairs = list(itertools.combinations(range(4), 2))
    S = [{0: 'xy', 1: 'y'}, {0: 'xy', 1: 'x'}, {0: 'xy', 3: 'xy'}, {0: 'y', 1: 'y', 2: 'y'}][s]
    for mask in range(1, 64):
        h = [MAT] + [['node', 'P%d' % k, p[0], p[1], 1.0] for k, p in enumerate(PANEL)]
        for b, (i, j) in enumerate(pairs):
            if mask >> b & 1:
                if kind == 'm':
                    h += [member('B%d' % b, 'P%d' % i, 'P%d' % j), rel('B%d' % b, '000011000011')]
                else:
                    h.append(['spring', 'B%d' % b, 'P%d' % i, 'P%d' % j, 30.0 + b])
        for k in range(4):
            f = S.get(k, '')
            h.append(sup('P%d' % k, ('1' if 'x' in f else '0') + ('1' if 'y' in f else '0') + '1111'))
        for lset in (0, 1):
            hh = h + ([['nload', 'P2', 'FX', 1.0, 'K'], ['nload', 'P3', 'FY', -2.0, 'K'], ['nload', 'P1', 'FX', .3, 'K']] if lset == 0 else
                      [['nload', 'P3', 'FX', 1.0, 'K']]) + [['combo', 'C', {'K': 1e-3}]]
            rec.state((case, mask, lset))
            judge(rec, '%s:%d:%d' % (':'.join(map(str, case)), mask, lset), hh, pick(mask, s, lset))


def bar(case, rec):
    """a single bar of many lengths and sizes with hinges and slides at its ends, one end held, the other one pushed sideways"""
    _, d, part = case
    u = ORIENT['+' + d]
    for L in [round(.3 + 1.7*part + .23*k, 6) for k in range(8)]:
        for j, I in enumerate((25., 3.3)):
            for q, pat in enumerate(('000011000011', '000001000011', '000011000001', '000000010011', '011000000011', '000001000010', '000010001010')):
                h = [MAT, ['node', 'I', 1., 2., 3.], ['node', 'J'] + [(1., 2., 3.)[k] + L*u[k] for k in range(3)],
                     member('M', 'I', 'J', ['S', I, 1.7*I, 10., 60.]), rel('M', pat), sup('I', '111111'), sup('J', '000111')]
                h += [['nload', 'J', f, .7 + i, 'K'] for i, f in enumerate(('FX', 'FY', 'FZ'))] + [['combo', 'C', {'K': 1e-3}]]
                rec.state((case, L, I, pat))
                judge(rec, 'bar:%s:%g:%g:%s' % (d, L, I, pat), h, [OPTS[4], OPTS[7], OPTS[(q + j) % 4], OPTS[(8, 5, 6)[(q + j) % 3]]])


def shell(case, rec):
    _, kind, pl, b = case
    base = [op for op in frames.quadpatch(kind, pl)['base'] if op[0] != 'support']
    P = ['000000', '100000', '010000', '001000', '111000', '011000', '001100', '111111']
    for i, a in enumerate(P):
        for j, c in enumerate(P[:5]):
            h = base + [sup('P0', P[b]), sup('P2', a), sup('P6', c)]
            h += [['nload', 'P4', 'FX', 2.0, 'K'], ['nload', 'P5', 'FY', 1.0, 'K'], ['nload', 'P4', 'FZ', -1.0, 'K'], ['nload', 'P7', 'MX', 3.0, 'K'],
                  ['combo', 'C', {'K': 1e-3}]]
            rec.state((case, i, j))
            judge(rec, '%s:%d:%d' % (':'.join(map(str, case)), i, j), h, pick(b, i, j)[:2 if (i + j) % 2 else 1])


def dev(case, rec):
    _, s, v = case
    h, loads = frames.history(s, v)
    h = h + [list(l) + ['K'] for l in loads] + [['combo', 'C', {'K': 1e-3}]]
    rec.state(case)
    judge(rec, '%s:%s' % (s, '+'.join(v)), h, pick(len(v), sum(map(len, v)), len(s)) if not (len(v) == 0) else OPTS)


def tc(case, rec):
    """one-way elements that drop out and leave a mechanism"""
    _, n = case
    kinds = [dict(tension_only=bool(n & 1)), dict(comp_only=bool(n & 2))]
    for P in (1.0, -1.0):
        for el in ('member', 'spring', 'support'):
            h = [MAT, ['node', 'A', 0, 0, 0], ['node', 'B', 8, 0, 0], ['node', 'C', 0, 6, 0], sup('A', '111111'), sup('C', '111111')]
            # bar A-B supported sideways only by B-C (or a one-way support spring)
            h += [['member', 'AB', 'A', 'B'] + list(MAT and ['S', 60.0, 150.0, 25.0, 10.0]), rel('AB', '000011000000' if n & 4 else '000000000000')]
            one = {}
            if n & 1:
                one['tension_only'] = True
            elif n & 2:
                one['comp_only'] = True
            if el == 'member':
                h += [['member', 'BC', 'B', 'C', 'S', 60.0, 150.0, 25.0, 10.0, one], rel('BC', '000011000011')]
            elif el == 'spring':
                h.append(['spring', 'BC', 'B', 'C', 40.0, one])
            else:
                h.append(['sspring', 'B', 'DY', 40.0] + (['+' if n & 1 else '-'] if n & 3 else []))
            h.append(sup('B', '001111' if not n & 8 else '001110'))
            h += [['nload', 'B', 'FY', P, 'K'], ['combo', 'C', {'K': 1.0}]]
            r = ref.Ref()
            for op in h:
                r.apply(op)
            rec.state((case, P, el))
            rec.history = h
            # admissible outcomes: an activity pattern that carries the loads
            ok = []
            for pat in r.patterns():
                try:
                    ok.append(r.solve('C', pat))
                except ref.Unstable:
                    pass
            for f, o in (('analyze', {}), ('analyze', dict(sparse=False)), ('pdelta', {}), ('analyze', dict(check_stability=False))):
                m = ops.build(h)
                rec.step()
                key = 'tc:%d:%g:%s:%s:%s' % (n, P, el, f, sorted(o.items()))
                try:
                    ops.apply_real(m, [f, o])
                except Exception:
                    rec.outcome((key, 'refused'))
                    rec.trace()
                    continue
                D = ops.disp(m, 'C')
                fin = all(np.isfinite(d).all() for d in D.values())
                if rec.true(key + ':finite', fin, 'displacements are not numbers') and f == 'analyze':
                    near = any(all(np.abs(D[k] - s.D[k]).max() < 1e-6*max(1e-9, max(np.abs(x).max() for x in s.D.values())) for k in D) for s in ok)
                    rec.true(key + ':pattern', near, 'solution belongs to no stable activity pattern: %s' % D)
                rec.trace()
                rec.outcome((key, 'solved'))


def pin(case, rec):
    """a node held by springs only; every one of its freedoms free, supported, sprung or with a given displacement"""
    _, which, a, b = case
    far = [(5, 1, 2), (-4, 3, 1), (1, -2, 6)][:which + 1]
    for rest in itertools.product('fsk' + ('e' if 'e' in case[2:] else ''), repeat=4):
        # the freedoms enumerated by the case are the rotations about y and z
        pat = rest + (a, b)
        h = [['node', 'P', 1, 2, 3]]
        for i, q in enumerate(far):
            h += [['node', 'F%d' % i] + [1 + q[0], 2 + q[1], 3 + q[2]], sup('F%d' % i, '111111'), ['spring', 'S%d' % i, 'P', 'F%d' % i, 30.0 + 7*i]]
        h.append(sup('P', ''.join('1' if x == 's' else '0' for x in pat)))
        for k, d in enumerate(('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')):
            if pat[k] == 'k':
                h.append(['sspring', 'P', d, (7., 11., 13., 450., 350., 500.)[k]])
            elif pat[k] == 'e':
                h.append(['disp', 'P', d, .01*(k + 1)])
        h += [['nload', 'P', f, 1.0 + k, 'K'] for k, f in enumerate(('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')) if k < 3 or pat[k] != 'f']
        h.append(['combo', 'C', {'K': 1e-3}])
        rec.state((case, rest))
        judge(rec, 'pin:%d:%s' % (which, ''.join(pat)), h, pick(which, *map('fske'.index, pat))[:2])


def soft(case, rec):
    """springs of any stiffness carry loads of their size"""
    from .p29 import convert, oneline
    for j, (lab, h) in enumerate(oneline(case[1])):
        for k, b in enumerate((1.0, 1e-5, 1e6)):
            rec.state((lab, b))
            judge(rec, '%s:%g' % (lab, b), convert(h, 1.0, b), pick(j, k, case[1]))


def units(case, rec):
    """the braced panels again, in other units of length and force"""
    from .p29 import convert
    global judge
    hs, old = [], judge
    judge = lambda rec_, key, h, opts, *q, **kw: hs.append((key, h))
    try:
        truss(['truss', 'm', case[1]], rec)
    finally:
        judge = old
    for i, (key, h) in enumerate(hs):
        rec.state((key, case[2]))
        judge(rec, '%s:%g' % (key, case[2][0]), convert(h, *case[2]), [OPTS[0], OPTS[1 + i % 3]])


def run(case, rec):
    {'sup': supc, 'rel': relc, 'gerber': gerber, 'truss': truss, 'bar': bar, 'shell': shell, 'dev': dev, 'tc': tc, 'pin': pin, 'soft': soft, 'units': units}[case[0]](case, rec)
