"""Results turn with the structure: rotation, translation, reflection, member reversal, insertion order, coordinate round-off."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, ORIENT, cmp_diagrams, cmp_disp, cmp_reac, lockstep, member, rel, rotation, sup
from .p06 import results

ID = 'P25'
TITLE = 'Results turn with the structure'
RULE = ('every structure (frames, springs, settlements, plates, quads, mixed, one-way) x all 24 axis rotations, 24 reflections and skew rotations, '
        'each with a translation x analysis kind; every subset of reversed members and springs; every cyclic renumbering of shell nodes; '
        'reversed insertion order; every sign pattern of coordinate round-off')
ASSUMPTIONS = ['the weak drilling stiffness of shells may depend on the numbering of their nodes',
               'local axes are kept with the structure by auxiliary nodes where the default axes depend on the global frame',
               'skew rotations need supports and support springs that are the same in all directions']
DOF = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
LD = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
LOCAL = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')
MFLIP = {'Fx': 1, 'Fy': -1, 'Fz': 1, 'Mx': -1, 'My': 1, 'Mz': -1}      # local components in a reflected structure


def oneway():
    """braced frame whose tension-only braces and one-way support springs matter"""
    n = frames.n
    return dict(
        base=[MAT, n('A', 0, 0, 0), n('B', 0, 10, 0), n('C', 12, 10, 0), n('D', 12, 0, 0), n('E', 12, 10, 8), n('F', 0, 16, -4),
              member('M1', 'A', 'B'), member('M2', 'B', 'C'), member('M3', 'D', 'C'), member('M4', 'E', 'C'),
              member('T1', 'A', 'C', ['S', 3., 5., 2., .4], tension_only=True), rel('T1', '000011000011'),
              member('T2', 'B', 'D', ['S', 3., 5., 2., .4], tension_only=True), rel('T2', '000011000011'),
              ['spring', 'S1', 'F', 'B', 12.0, dict(comp_only=True)], ['spring', 'S2', 'F', 'C', 9.0, dict(tension_only=True)],
              sup('A', '111111'), sup('D', '111111'), sup('E', '111111'), sup('F', '111111'),
              ['sspring', 'B', 'DZ', 14.0, '+'], ['sspring', 'C', 'DX', 20.0, '-'], ['sspring', 'C', 'DY', 7.0]],
        loads=[['nload', 'B', 'FX', 9.0], ['nload', 'C', 'FZ', -5.0], ['dload', 'M2', 'FY', -.2, -.4, 1.0, 10.0], ['nload', 'C', 'FX', -6.0]])


def structure(s):
    """[ops incl. loads and combos] with explicit local axes"""
    st = oneway() if s == 'oneway' else None
    h, loads = (st['base'], st['loads']) if st else frames.history(s, [])
    r = ref.Ref()
    for op in h:
        r.apply(op)
    out, k = [], 0
    for op in h:
        if op[0] == 'member':
            kw = dict(op[9]) if len(op) > 9 else {}
            if 'aux_node' not in kw:
                pi, pj = np.array(r.nodes[op[2]]['p']), np.array(r.nodes[op[3]]['p'])
                R = ref.local_axes(pi, pj)
                out.append(['aux', 'AX' + op[1]] + [float(x) for x in pi + 7*R[2] + 2*R[0]])
                kw['aux_node'] = 'AX' + op[1]
            out.append(list(op[:9]) + [kw])
        else:
            out.append(list(op))
    nl = len(loads)
    out += [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)]
    out += [['combo', 'P', {'K0': 1.0}], ['combo', 'Q', {'K1': 1.0, 'K0': -.4}]]
    return out


def plain(s):
    """the structure with members that bend alike in both directions, automatic axes and global loads only"""
    out = []
    for op in structure(s):
        if op[0] == 'aux':
            continue
        if op[0] == 'member':
            op = op[:5] + [op[6], op[6]] + op[7:9] + [{k: v for k, v in op[9].items() if k != 'aux_node'}]
        elif op[0] == 'release':
            f = list(op[2])
            for k in (0, 6):
                f[k + 1] = f[k + 2] = f[k + 1] or f[k + 2]
                f[k + 4] = f[k + 5] = f[k + 4] or f[k + 5]
            op = ['release', op[1], f]
        elif op[0] in ('ptload', 'dload') and op[2] in ('Fy', 'Fz', 'My', 'Mz'):
            op = op[:2] + [op[2].upper()] + op[3:]
        out.append(op)
    return out


def resultants(res):
    """only what does not depend on the choice of the local axes"""
    out = []
    for lab, v in res:
        g = lab.split(':')[0]
        if g == 'cut':
            v = v.reshape(4, 6)
            # axial force, torque, resultant shear and moment
            v = np.array([[r[5], r[4], np.hypot(r[0], r[1]), np.hypot(r[2], r[3])] for r in v]).ravel()
        elif g == 'defl':
            v = v.reshape(3, 3)
            v = np.concatenate([v[0], np.hypot(v[1], v[2])])
        out.append((lab, v))
    return out


STRUCT = tuple(frames.ALL) + ('oneway',)


def axis_group():
    out = []
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, p[i]] = sg[i]
            out.append(M)
    return sorted(out, key=lambda M: -np.linalg.det(M))      # 24 rotations first


SKEW = [((1, 2, 3), 40), ((0, 1, 0), 33), ((1, 0, 0), -71), ((-2, 1, .5), 160), ((0, 0, 1), 12)]
SHIFT = [(0, 0, 0), (100., -50., 30.), (-3., 7., 11.), (0, 1000., 0)]


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in STRUCT:
        for g in range(48):
            out.append(['axis', s, g])
            if s[:4] not in ('quad', 'plat'):
                out.append(['auto', s, g])
        for g in range(len(SKEW)):
            for mir in (False, True):
                out.append(['skew', s, g, mir])
        out.append(['reverse', s, 10 if th else 4])
        out.append(['order', s])
        out.append(['noise', s, th])
    for v in ('+X', '-X', '+Z', '-Z', 'XZ', 'X-Z'):
        for end in range(9):
            out.append(['single', v, -5, end])      # hardly leaning members: like horizontal ones
    for d in range(-18, -11) if th else (-18, -15, -12):
        for v in (('+Y', '-Y', '+X', '-Z', 'XZ') if th else ('+Y', '-Y', '+X')):
            for end in range(9):
                out.append(['single', v, d, end])
    return out


def turn(h, M, t, skew):
    """the history that builds the image x -> M x + t of the structure"""
    M, t = np.array(M, float), np.array(t, float)
    det = round(np.linalg.det(M))
    r = ref.Ref()
    for op in h:
        r.apply(op)
    perm = [int(np.argmax(np.abs(M[:, k]))) for k in range(3)]        # image axis of every axis
    sgn = [M[perm[k], k] for k in range(3)]
    pt = lambda p: [float(x) for x in M @ np.array(p, float) + t]

    def image(d):
        """global direction -> [(direction, factor)]"""
        k = LD.index(d)
        f = M[:, k % 3]*(det if k >= 3 else 1)
        return [(LD[3*(k//3) + i], float(f[i])) for i in range(3) if f[i] != 0]

    out = []
    for op in h:
        k, a = op[0], op[1:]
        if k in ('node', 'aux'):
            out.append([k, a[0]] + pt(a[1:]))
        elif k == 'support':
            f = list(a[1])
            if skew:
                out.append([k, a[0], [any(f[:3])]*3 + [any(f[3:])]*3])
            else:
                g = [False]*6
                for d in range(3):
                    g[perm[d]], g[3 + perm[d]] = f[d], f[3 + d]
                out.append([k, a[0], g])
        elif k in ('sspring', 'disp'):
            d = DOF.index(a[1])
            nd = DOF[3*(d//3) + perm[d % 3]]
            s = sgn[d % 3]*(det if d >= 3 else 1)
            if k == 'disp':
                out.append([k, a[0], nd, a[2]*s])
            elif len(a) > 3:
                out.append([k, a[0], nd, a[2], a[3] if s > 0 else {'+': '-', '-': '+'}[a[3]]])
            else:
                out.append([k, a[0], nd, a[2]])
        elif k == 'nload':
            out += [[k, a[0], d, a[2]*f] + list(a[3:]) for d, f in image(a[1])]
        elif k == 'ptload':
            if a[1] in LOCAL:
                out.append([k, a[0], a[1], a[2]*(MFLIP[a[1]] if det < 0 else 1)] + list(a[3:]))
            else:
                out += [[k, a[0], d, a[2]*f] + list(a[3:]) for d, f in image(a[1])]
        elif k == 'dload':
            if a[1] in LOCAL:
                s = MFLIP[a[1]] if det < 0 else 1
                out.append([k, a[0], a[1], a[2]*s, a[3]*s] + list(a[4:]))
            else:
                out += [[k, a[0], d, a[2]*f, a[3]*f] + list(a[4:]) for d, f in image(a[1])]
        elif k in ('qpress', 'ppress'):
            out.append([k, a[0], a[1]*det] + list(a[2:]))
        else:
            out.append(list(op))
    return out


def uniform(h):
    """the same structure with supports and springs that have no preferred direction"""
    out, done = [], set()
    for op in h:
        if op[0] == 'support':
            f = op[2]
            out.append(['support', op[1], [any(f[:3])]*3 + [any(f[3:])]*3])
        elif op[0] == 'sspring':
            d = DOF.index(op[2])
            if (op[1], d//3) in done:
                continue
            done.add((op[1], d//3))
            out += [['sspring', op[1], DOF[3*(d//3) + i], op[3]] for i in range(3)]
        elif op[0] != 'disp':
            out.append(op)
    return out


def image_results(res, M, det):
    """expected results of the turned structure from those of the original"""
    out = []
    for lab, v in res:
        g = lab.split(':')[0]
        if g in ('disp', 'reac'):
            v = np.concatenate([M @ v[:3], det*(M @ v[3:])])
        elif det < 0 and g == 'cut':
            v = (v.reshape(4, 6)*[-1, 1, 1, -1, -1, 1]).ravel()       # Fy Fz My Mz torque axial
        elif det < 0 and g == 'defl':
            v = (v.reshape(3, 3)*np.array([[1], [-1], [1]])).ravel()
        elif det < 0 and g in ('quad', 'plate'):
            v = (v.reshape(2, 8)*[-1]*5 if False else v.reshape(2, 8)*np.array([-1]*5 + [1]*3)).ravel()
        out.append((lab, v))
    return out


def compare(rec, key, got, want, msg, tol=2e-6, skip=()):
    sc = {}
    for lab, x in want:
        g = lab.split(':')[0]
        sc[g] = max(sc.get(g, 1e-6), np.abs(x).max() if x.size else 0)
    for g in ('spring', 'cut'):
        sc[g] = max(sc.get(g, 0), .01*sc.get('reac', 0))
    w = dict(want)
    rec.true(key + ':objects', set(w) == {l for l, _ in got}, '%s: objects differ' % msg)
    for lab, x in got:
        if lab in w and lab.split(':')[0] not in skip:
            rec.close('%s:%s' % (key, lab), x, w[lab], tol, sc[lab.split(':')[0]], '%s: %s' % (msg, lab))


_BASE = {}


def solved(h, e):
    key = (repr(h), e)
    if key not in _BASE:
        if len(_BASE) > 200:
            _BASE.clear()
        m = ops.build(h)
        try:
            ops.apply_real(m, [e, {}])
            _BASE[key] = {c: results(m, c) for c in 'PQ'}
        except Exception as ex:
            if not any(w in str(ex) for w in ('nstable', 'singular', 'diverge')):
                raise
            _BASE[key] = None
    return _BASE[key]


def entries(s):
    return ('analyze',) + (('pdelta',) if s in ('portal', 'space', 'cont', 'springs', 'braced') else ())


def pair(rec, key, h, h2, M, det, s, skip=(), tol=2e-6, view=lambda x: x):
    r = ref.Ref()
    for op in h:
        r.apply(op)
    for e in entries(s):
        base = solved(h, e)
        m, _ = lockstep(rec, h2)
        if base is None:
            try:
                ops.apply_real(m, [e, {}])
                rec.fail('%s:%s:refusal' % (key, e), 'the original structure is refused, its image is solved')
            except Exception as ex:
                if not any(w in str(ex) for w in ('nstable', 'singular', 'diverge')):
                    raise
            continue
        ops.apply_real(m, [e, {}])
        rec.step()
        for c in 'PQ':
            want = image_results(base[c], M, det)
            compare(rec, '%s:%s:%s' % (key, e, c), view(results(m, c)), view(want), '%s combo %s' % (e, c), tol, skip)
            rec.trace()
            rec.outcome((key, e, c))


def axis(case, rec):
    s, g = case[1], case[2]
    M = axis_group()[g]
    h = structure(s)
    h2 = turn(h, M, SHIFT[g % 3], False)
    pair(rec, 'axis:%s:%d' % (s, g), h, h2, M, round(np.linalg.det(M)), s)
    if g in (0, 7, 20, 31) and s != 'oneway':
        # the images themselves against the reference model
        m, r = lockstep(rec, h2)
        ops.apply_real(m, ['analyze', {}])
        rec.step()
        for c in 'PQ':
            sol = r.solve(c)
            cmp_disp(rec, 'axis:%s:%d:%s' % (s, g, c), m, sol, c)
            cmp_reac(rec, 'axis:%s:%d:%s' % (s, g, c), m, sol, r, c)
            for n in r.members:
                cmp_diagrams(rec, 'axis:%s:%d:%s' % (s, g, c), m, sol, n, c)


def auto(case, rec):
    """members of equal stiffness about both axes keep their automatic local axes"""
    _, s, g = case
    M = axis_group()[g]
    h = plain(s)
    pair(rec, 'auto:%s:%d' % (s, g), h, turn(h, M, SHIFT[g % 3], False), M, round(np.linalg.det(M)), s, view=resultants)


def skew(case, rec):
    _, s, g, mir = case
    M = rotation(*SKEW[g])
    if mir:
        M = M @ np.diag([1., 1., -1.])
    h = uniform(structure(s))
    r = ref.Ref()
    for op in h:
        r.apply(op)
    if s == 'oneway':
        h = [op[:4] if op[0] == 'sspring' else op for op in h]
    pair(rec, 'skew:%s:%d:%s' % (s, g, mir), h, turn(h, M, SHIFT[g % 4], True), M, -1 if mir else 1, s)


RFLIP = {'Fx': -1, 'Fy': -1, 'Fz': 1, 'Mx': -1, 'My': -1, 'Mz': 1}     # x and y axes turn around


def reversed_ops(h, subset):
    r = ref.Ref()
    for op in h:
        r.apply(op)
    out = []
    for op in h:
        k, a = op[0], op[1:]
        if k == 'member' and a[0] in subset:
            out.append([k, a[0], a[2], a[1]] + list(a[3:8]) + [dict(a[8])])
        elif k == 'spring' and a[0] in subset:
            out.append([k, a[0], a[2], a[1]] + list(a[3:]))
        elif k == 'release' and a[0] in subset:
            out.append([k, a[0], list(a[1][6:]) + list(a[1][:6])])
        elif k == 'ptload' and a[0] in subset:
            s = RFLIP.get(a[1], 1)
            out.append([k, a[0], a[1], a[2]*s, r.length(a[0]) - a[3]] + list(a[4:]))
        elif k == 'dload' and a[0] in subset:
            s, L = RFLIP.get(a[1], 1), r.length(a[0])
            x1, x2 = 0 if a[4] is None else a[4], L if a[5] is None else a[5]
            out.append([k, a[0], a[1], a[3]*s, a[2]*s, L - x2, L - x1] + list(a[6:]))
        else:
            out.append(op)
    return out


def member_fields(m, names, c, flip):
    """section forces and deflections at the same places, in the axes of the unreversed member"""
    out = []
    for n in names:
        mem = m.members[n]
        L = mem.L()
        for t in (.0031, .31, .683, .9972):
            x = (1 - t)*L if n in flip else t*L
            v = [mem.axial(x, c), mem.shear('Fy', x, c), mem.shear('Fz', x, c), mem.torque(x, c), mem.moment('My', x, c), mem.moment('Mz', x, c)]
            d = [mem.deflection(q, x, c)*1e3 for q in ('dx', 'dy', 'dz')]
            if n in flip:
                # y is reversed and z kept: a cut seen from the other side
                v = [v[0], v[1], -v[2], v[3], v[4], -v[5]]
                d = [-d[0], -d[1], d[2]]
            out.append(('cut:%s:%s' % (n, t), np.array(v)))
            out.append(('defl:%s:%s' % (n, t), np.array(d)))
    return out


def reverse(case, rec):
    _, s, maxn = case
    h = structure(s)
    names = [op[1] for op in h if op[0] in ('member', 'spring')]
    mems = [op[1] for op in h if op[0] == 'member']
    # every subset of the first few, then each of the others alone and all together
    subsets = [set(c) for k in range(1, min(len(names), maxn) + 1) for c in itertools.combinations(names[:maxn], k)]
    subsets += [{n} for n in names[maxn:]] + [set(names)]
    for e in entries(s):
        m0 = ops.build(h)
        ops.apply_real(m0, [e, {}])
        want = {c: results(m0, c) for c in 'PQ'}
        wf = {c: member_fields(m0, mems, c, ()) for c in 'PQ'}
        for sub in subsets if e == 'analyze' else subsets[::3]:
            h2 = reversed_ops(h, sub)
            m, _ = lockstep(rec, h2)
            ops.apply_real(m, [e, {}])
            rec.step()
            key = 'reverse:%s:%s:%s' % (s, '+'.join(sorted(sub)), e)
            for c in 'PQ':
                compare(rec, key + ':' + c, results(m, c), want[c], 'members %s reversed, combo %s' % (sorted(sub), c), skip=('cut', 'defl'))
                compare(rec, key + ':' + c, member_fields(m, mems, c, sub), wf[c], 'members %s reversed, combo %s' % (sorted(sub), c))
                rec.trace()
                rec.outcome((key, c))
    # shells: every cyclic renumbering, same winding, and the opposite winding with the pressure reversed
    shells = [op[1] for op in h if op[0] in ('quad', 'plate')]
    if not shells or s == 'mixed':
        return          # a member on the shell also loads the weak drilling spring, which depends on the numbering
    r = ref.Ref()
    for op in h:
        r.apply(op)
    P = [np.array(r.nodes['P%d' % i]['p']) for i in (0, 1, 3)]
    normal = np.cross(P[1] - P[0], P[2] - P[0])
    h = [op for op in h if op[0] != 'nload' or op[2][0] == 'F' or abs(normal[LD.index(op[2]) - 3]) < 1e-9]
    want = {c: [x for x in v if x[0][:4] in ('disp', 'reac')] for c, v in solved(h, 'analyze').items()}
    for shift in range(4):
        for opp in (False, True):
            for which in [[n] for n in shells] + [shells]:
                h2 = []
                for op in h:
                    if op[0] in ('quad', 'plate') and op[1] in which:
                        c = op[2:6][shift:] + op[2:6][:shift]
                        if opp:
                            c = [c[0], c[3], c[2], c[1]]
                        op = op[:2] + c + op[6:]
                    elif op[0] in ('qpress', 'ppress') and op[1] in which and opp:
                        op = op[:2] + [-op[2]] + op[3:]
                    h2.append(op)
                m, _ = lockstep(rec, h2)
                ops.apply_real(m, ['analyze', {}])
                rec.step()
                key = 'renumber:%s:%d:%s:%s' % (s, shift, opp, '+'.join(which))
                for c in 'PQ':
                    got = [x for x in results(m, c) if x[0][:4] in ('disp', 'reac')]
                    # restrained rotations that are not about the shell's own axes involve its drilling spring
                    compare(rec, key + ':' + c, got, want[c], 'shells %s renumbered' % which, 2e-3 if s.endswith('SK') else 2e-6)
                    rec.trace()
                    rec.outcome((key, c))


def order(case, rec):
    """objects, loads, supports and combinations defined in other orders"""
    s = case[1]
    h = structure(s)
    kinds = [['mat'], ['node', 'aux'], ['member', 'spring', 'quad', 'plate'], ['release'], ['support', 'sspring', 'disp', 'nload', 'ptload', 'dload', 'qpress', 'ppress', 'combo']]
    groups = [[op for op in h if op[0] in k] for k in kinds]
    groups = [groups[0], groups[1], groups[2], groups[3] + groups[4]]
    assert sum(map(len, groups)) == len(h)
    for flags in itertools.product((0, 1, 2), repeat=3):
        if not any(flags):
            continue
        h2 = list(groups[0])
        for g, f in zip(groups[1:], flags):
            h2 += g if f == 0 else g[::-1] if f == 1 else g[len(g)//2:] + g[:len(g)//2]
        pair(rec, 'order:%s:%s' % (s, ''.join(map(str, flags))), h, h2, np.eye(3), 1, s)


def noise(case, rec):
    """round-off in every coordinate, with the automatic local axes"""
    _, s, th = case
    h = [op for op in structure(s) if op[0] != 'aux' or not op[1].startswith('AX')]
    h = [op[:9] + [{k: v for k, v in op[9].items() if not (k == 'aux_node' and v.startswith('AX'))}] if op[0] == 'member' else op for op in h]
    nn = sum(op[0] == 'node' for op in h)
    pats = list(itertools.product((-1, 0, 1), repeat=3))
    for mag in ((1e-18, 1e-16, 1e-15, 1e-14, 1e-13, 1e-12) if th else (1e-17, 1e-13)):
        for shift in range(27):
            h2, i = [], 0
            for op in h:
                if op[0] == 'node':
                    p = pats[(i*7 + shift) % 27]
                    op = op[:2] + [float(x) + mag*d for x, d in zip(op[2:], p)]
                    i += 1
                h2.append(op)
            pair(rec, 'noise:%s:%g:%d' % (s, mag, shift), h, h2, np.eye(3), 1, s)


def single_case(case, rec):
    """one member with automatic axes: every round-off pattern of its end coordinates"""
    _, v, d, end = case
    u = np.array(ORIENT[v], float)
    mag = 10.0**d
    loads = [['nload', 'J', 'FX', 3.0, 'K0'], ['nload', 'J', 'FZ', 1.0, 'K0'], ['dload', 'M', 'Fy', .3, .1, None, None, 'K0'], ['nload', 'J', 'FY', .5, 'K1'],
             ['ptload', 'M', 'Fz', 2.0, 3.0, 'K1'], ['ptload', 'M', 'MZ', 2.0, 3.0, 'K1'], ['combo', 'P', {'K0': 1.0}], ['combo', 'Q', {'K1': 1.0}]]

    def build(o, noise):
        P = np.array([o, o + 10*u]) + noise
        return [MAT, ['node', 'I'] + [float(x) for x in P[0]], ['node', 'J'] + [float(x) for x in P[1]], ['node', 'G'] + [float(x) for x in P[1] + 4*u],
                member('M', 'I', 'J'), ['spring', 'S', 'J', 'G', 15.0], sup('I', '111111'), sup('G', '111111')] + loads
    for o in (np.zeros(3), np.array([1., 2., 3.]), np.array([-5., 0., 0.])):
        h = build(o, np.zeros((2, 3)))
        k0 = [k for k in range(3) if abs(u[k]) < .9] if v != 'XZ' else [0, 1, 2]
        a = (end//3 - 1, end % 3 - 1)
        for b in itertools.product((-1, 0, 1), repeat=len(k0)):
            nz = np.zeros((2, 3))
            nz[0, k0[0]], nz[0, k0[1]] = mag*a[0], mag*a[1]
            nz[1, k0] = mag*np.array(b)
            pair(rec, 'single:%s:%d:%d:%s:%s' % (v, d, end, b, o[0]), h, build(o, nz), np.eye(3), 1, 'single',
                 tol=2e-6 if d < -9 else 1e-3)


def run(case, rec):
    {'axis': axis, 'auto': auto, 'skew': skew, 'reverse': reverse, 'order': order, 'noise': noise, 'single': single_case}[case[0]](case, rec)
