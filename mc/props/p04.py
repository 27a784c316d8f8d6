"""Scalar, array and extreme-value queries of a physical member agree with one another and with the exact diagram."""
import numpy as np

from .. import frames, ops, ref
from ..common import each_in_own_combo, lockstep, force_scale, member, sup, MAT

ID = 'P04'
TITLE = 'Point, array and max/min queries of a member describe one and the same diagram'
RULE = ('every frame structure and its deviations and single members carrying every pair of representative loads x every '
        'combination x member x quantity; queries asked in several orders of combinations; every query as the first one after an '
        'analysis and directly after every other query in another combination; points, arrays and extremes after linear, '
        'nonlinear and P-Delta analyses')
ASSUMPTIONS = ['a concentrated load exactly at the j-end may be read before or after the load', 'at a jump of a diagram either one-sided value is accepted', 'max/min deflection may miss the true peak by '
               'the published sampling step (1% of the range)']

Q = {'Fy': ('shear', 'Fy'), 'Fz': ('shear', 'Fz'), 'My': ('moment', 'My'), 'Mz': ('moment', 'Mz'), 'Mx': ('torque', None),
     'Fx': ('axial', None), 'dx': ('deflection', 'dx'), 'dy': ('deflection', 'dy'), 'dz': ('deflection', 'dz')}
DIST = [['dload', 'M', 'FY', 1.0, 1.0, None, None], ['dload', 'M', 'Fy', -.3, -.1, 0, 10.], ['dload', 'M', 'Fy', .1, .3, None, None],
        ['dload', 'M', 'Fz', .7, -.4, 2.0, 9.0], ['dload', 'M', 'FZ', -.2, 0, 0, 6.], ['dload', 'M', 'Fx', .5, -.8, None, None],
        ['dload', 'M', 'FX', .3, .3, 3., 10.], ['dload', 'M', 'Fy', .3, .1, None, None], ['dload', 'M', 'Fy', -.7, -.7, 3., 8.]]
PTS = [['ptload', 'M', 'Fy', -3.0, 4.0], ['ptload', 'M', 'Fz', 2.0, 0.0], ['ptload', 'M', 'Mz', 5.0, 7.0],
       ['ptload', 'M', 'My', -4.0, 3.0], ['ptload', 'M', 'FX', 2.0, 10.0], ['ptload', 'M', 'Mx', 3.0, 6.0],
       ['ptload', 'M', 'MZ', 3.0, 0.0], ['ptload', 'M', 'FY', 1.0, 10.0]]


def cases(tier):
    th = tier != 'quick'
    out = []
    allp = DIST + PTS
    for o in (('+X', 'XY', 'XYZ', '-Y') if th else ('+X', 'XYZ')):
        for inner in ((0, 1, 2) if th else (0, 1)):
            for i in range(len(allp)):
                out.append(['pair', o, inner, i])
    for f in frames.FRAMES:
        for v in frames.variants(f, 1 if th or f in ('cont', 'portal') else 0):
            out.append(['frame', f, v])
    for f in ('cont', 'portal'):
        for k in range(6):
            out.append(['order', f, k])
    for f in ('cont', 'portal', 'single', 'axial'):
        for a in ('analyze', 'analyze_linear', 'pdelta'):
            if th or (f, a) in (('single', 'analyze'), ('axial', 'pdelta'), ('portal', 'analyze'), ('axial', 'analyze_linear')):
                out.insert(0, ['first', f, a])
            out.append(['consistent', f, a])
    return out


ASK = {}
for _f, _d in list(Q.values()) + [('rel_deflection', 'dy'), ('rel_deflection', 'dz')]:
    _a = (_d,) if _d else ()
    ASK['%s %s' % (_f, _d)] = lambda m, c, x, f=_f, a=_a: getattr(m, f)(*a, x, c)
    ASK['%s_array %s' % (_f, _d)] = lambda m, c, x, f=_f, a=_a: np.array(getattr(m, f + '_array')(*a, 7, c), float)
    ASK['%s_array %s at' % (_f, _d)] = lambda m, c, x, f=_f, a=_a: np.array(getattr(m, f + '_array')(*a, 7, c, np.array([0, x, m.L()])), float)
    if _f[:3] != 'rel':
        ASK['max_%s %s' % (_f, _d)] = lambda m, c, x, f=_f, a=_a: getattr(m, 'max_' + f)(*a, c)
        ASK['min_%s %s' % (_f, _d)] = lambda m, c, x, f=_f, a=_a: getattr(m, 'min_' + f)(*a, c)


def loaded(f):
    """a structure with loads of every kind and sizeable axial forces, and the names of its combinations"""
    if f in ('single', 'axial'):
        h = frames.single((.6, .48, .64) if f == 'single' else (0, 1, 0))
        lo = (DIST + PTS)[::2 if f == 'single' else 3]
        h += [sup('I', '111100'), sup('J', '011011')] if f == 'single' else [sup('I', '111111')]
    else:
        h, lo = frames.history(f, [])
    h = h + [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(lo)]
    if f == 'axial':
        h.append(['nload', 'J', 'FY', -40.0, 'K0'])
    h += [['combo', 'c%d' % i, {'K%d' % k: v for k, v in enumerate(fs)}] for i, fs in enumerate(((1., .5, 2.), (-1., 1., .3), (.2, 0, -1.5)))]
    return h, ['c0', 'c1', 'c2']


def first(rec, key, case):
    """every query as the first one after an analysis and as the first one after switching combinations by any other query"""
    h, names = loaded(case[1])
    m = ops.build(h)
    ana = lambda: ops.apply_real(m, [case[2], {}])
    ana()
    mems = list(m.members)[:3]
    x = {n: .37*m.members[n].L() for n in mems}
    want = {}
    for n in mems:
        for c in names:
            # the settled answers: every quantity was asked before
            for q in ('shear Fy', 'moment Mz', 'torque None'):
                ASK[q](m.members[n], c, x[n])
            for q, f in ASK.items():
                want[n, c, q] = f(m.members[n], c, x[n])
    for q, f in ASK.items():
        ana()
        rec.step()
        for c in names + names[:1]:
            for n in mems:
                got = f(m.members[n], c, x[n])
                rec.close('%s:%s:%s:%s' % (key, q.replace(' ', '_'), n, c), got, want[n, c, q], 1e-9, 1e-9,
                          '%s of %s in %s asked right after the %s' % (q, n, c, 'analysis'))
                rec.trace()
        rec.state((key, q))
    # any other query in another combination comes in between
    for n in mems[:1]:
        for q, f in ASK.items():
            for p, g in ASK.items():
                if 'array' in p or 'deflection' in p and 'm' in p[:1] or p[-1] in 'xZ':
                    continue
                g(m.members[n], 'c1', x[n])
                got = f(m.members[n], 'c0', x[n])
                rec.close('%s:%s:%s:after:%s' % (key, q.replace(' ', '_'), n, p.replace(' ', '_')), got, want[n, 'c0', q], 1e-9, 1e-9,
                          '%s of %s in c0 asked after %s in c1' % (q, n, p))
                rec.trace()
                rec.step(2)


def consistent(rec, key, case):
    """points, arrays and extremes describe one diagram whatever kind of analysis was run"""
    h, names = loaded(case[1])
    r = ref.Ref()
    for op in h:
        r.apply(op)
    m = ops.build(h)
    ops.apply_real(m, [case[2], {}])
    rec.step()
    for n, mem in m.members.items():
        L = mem.L()
        brk = r.solve(names[0]).breaks(n)
        for c in names:
            grid = np.array(sorted(set(np.linspace(0, L, 101)) | {min(max(b + e*L, 0), L) for b in brk for e in (-1e-6, 0, 1e-6)}))
            for q in Q:
                a = np.asarray(arr(mem, q, 5, c, grid), float)[1]
                p = np.array([scal(mem, q, x, c) for x in grid], float)
                sc = max(np.abs(p).max(), 1e-9)
                off = np.array([all(abs(x - b) > 1e-9*L for b in brk) for x in grid])
                rec.close('%s:%s:%s:%s:array' % (key, n, c, q), a[off], p[off], 1e-8, sc, '%s array and points of %s in %s' % (q, n, c))
                hi, lo = ext(mem, q, c, 'max'), ext(mem, q, c, 'min')
                tol = .02*(p.max() - p.min()) + 1e-6*sc
                t2 = 1e-6*sc if q[0] != 'd' else tol
                rec.true('%s:%s:%s:%s:max' % (key, n, c, q), p[off].max() - t2 <= hi <= p.max() + tol, 'max %s of %s in %s is %r, the diagram reaches %r' % (q, n, c, hi, p.max()))
                rec.true('%s:%s:%s:%s:min' % (key, n, c, q), p.min() - tol <= lo <= p[off].min() + t2, 'min %s of %s in %s is %r, the diagram reaches %r' % (q, n, c, lo, p.min()))
                rec.trace()
            for q in ('dy', 'dz'):
                p = np.array([mem.rel_deflection(q, x, c) for x in grid], float)
                rec.close('%s:%s:%s:rel%s' % (key, n, c, q), mem.rel_deflection_array(q, 3, c, grid)[1], p, 1e-8, max(np.abs(p).max(), 1e-9), 'relative deflection array of %s in %s' % (n, c))
                d = np.array([mem.deflection(q, x, c) for x in grid], float)
                w = d - (d[0] + (d[-1] - d[0])*grid/L)
                rec.close('%s:%s:%s:chord%s' % (key, n, c, q), p, w, 1e-6, max(np.abs(d).max(), 1e-9), 'relative deflection of %s in %s' % (n, c))
    rec.state(key)


def run(case, rec):
    if case[0] in ('first', 'consistent'):
        rec.history = case
        return (first if case[0] == 'first' else consistent)(rec, ':'.join(case), case)
    key = ':'.join(str(x) if not isinstance(x, list) else '+'.join(x) for x in case)
    if case[0] == 'pair':
        u = ref_dir(case[1])
        allp = DIST + PTS
        for j in range(len(allp)):
            h = frames.single(u)
            for k, t in enumerate(((), (.37,), (.3, .8))[case[2]]):
                h.append(['node', 'V%d' % k] + [(1, 2, 3)[c] + 10*t*u[c] for c in range(3)])
            h += [sup('I', '111100'), sup('J', '111011')]
            lo = [allp[case[3]] + ['A'], allp[j] + ['B'], ['combo', 'C', {'A': 1.0, 'B': 1.0}], ['combo', 'D', {'A': -1.2, 'B': .9}]]
            go(rec, key + ':%d' % j, h + lo, ['C', 'D'])
    else:
        h, loads = frames.history(case[1], case[2] if case[0] == 'frame' else [])
        lo, names = each_in_own_combo(loads, 1.0)
        lo.append(['combo', 'ALL', {'L%d' % i: (1.0, -1.4, .7)[i % 3] for i in range(len(loads))}])
        names = (names + ['ALL'])
        order = None
        if case[0] == 'order':
            n = len(names)
            order = {0: names[::-1], 1: names[::2] + names[1::2], 2: names + names, 3: [names[0], 'ALL']*3,
                     4: names[n//2:] + names[:n//2], 5: sorted(names)}[case[2]]
        go(rec, key, h + lo, order or names)


def ref_dir(o):
    from ..common import ORIENT
    return ORIENT[o]


def go(rec, key, h, order):
    r = ref.Ref()
    for op in h:
        r.apply(op)
    try:
        r.solve(order[0])
    except ref.Unstable:
        return
    m, r = lockstep(rec, h)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    sols = {}
    for c in order:
        if c not in sols:
            sols[c] = r.solve(c)
        for name in m.members:
            one(rec, '%s:%s:%s' % (key, c, name), m.members[name], sols[c], name, c, r)
        rec.trace()
        rec.outcome((key, c))


def scal(mem, q, x, c):
    f, d = Q[q]
    return getattr(mem, f)(d, x, c) if d else getattr(mem, f)(x, c)


def arr(mem, q, n, c, xa=None):
    f, d = Q[q]
    g = getattr(mem, f + '_array')
    return g(d, n, c, xa) if d else g(n, c, xa)


def ext(mem, q, c, which):
    f, d = Q[q]
    g = getattr(mem, which + '_' + f)
    return g(d, c) if d else g(c)


def one(rec, key, mem, sol, name, c, r):
    L = mem.L()
    ex = sol.extremes(name)
    fs, ms = force_scale(sol, name)
    brk = sol.breaks(name)
    jump = lambda x: any(abs(x - b) < 1e-6*L for b in brk)
    xs = np.array(sorted({min(x, L) for x in (0.0, .11*L, .2*L, .5*L, .77*L, L, *brk)}))
    for q in Q:
        d = q[0] == 'd'
        if d and any(r.members[name]['rel'][k] for k in (0, 1, 2, 6, 7, 8)):
            continue
        vals = np.array([scal(mem, q, x, c) for x in xs], float)
        sc = max(np.abs(vals).max(), 1e-9) if d else (fs if q[0] == 'F' else ms)
        for which in ('max', 'min'):
            got = ext(mem, q, c, which)
            rec.ev()
            if not d:
                want = ex[q][0 if which == 'max' else 1]
                pick = max if which == 'max' else min
                end = pick(want, sol.cut(name, L, 1)[q])       # a load exactly at the j-end may or may not be included
                if not (abs(got - want) <= 1e-6*sc or abs(got - end) <= 1e-6*sc):
                    rec.fail('%s:%s:%s' % (key, which, q), '%s %s of member %s combo %s: got %r, exact diagram has %r' % (
                        which, q, name, c, got, want))
            else:
                # within the sampling tolerance of the values read pointwise
                rng = vals.max() - vals.min()
                if which == 'max':
                    ok = got >= vals.max() - .02*rng - 1e-7*sc
                else:
                    ok = got <= vals.min() + .02*rng + 1e-7*sc
                if not ok:
                    rec.fail('%s:%s:%s' % (key, which, q), '%s deflection %s of member %s combo %s is %r although %r occurs' % (
                        which, q, name, c, got, vals.max() if which == 'max' else vals.min()))
        for n, xa in ((2, None), (3, None), (11, None), (20, xs)):
            a = np.asarray(arr(mem, q, n, c, xa), float)
            rec.ev()
            want_x = xa if xa is not None else np.linspace(0, L, n)
            if a.shape != (2, len(want_x)) or np.abs(a[0] - want_x).max() > 1e-9*L:
                rec.fail('%s:array-x:%s:%s' % (key, q, n), 'x row of %s array is %s, expected %s' % (q, a[:1], want_x))
                continue
            for k, x in enumerate(want_x):
                v = a[1][k]
                w = scal(mem, q, x, c)
                if abs(v - w) <= 1e-6*sc:
                    continue
                if not d and jump(x):
                    alts = [sol.cut(name, x, s)[q] for s in (-1, 1)]
                    if any(abs(v - t) <= 1e-6*sc for t in alts):
                        continue
                rec.fail('%s:array:%s:%s' % (key, q, n), '%s_array(n=%s)[%d] (x=%.6g) of member %s combo %s is %r, point value %r' % (
                    q, n, k, x, name, c, v, w))
                break
        rec.ev(len(xs))
    # relative deflection is measured from the chord joining the member's ends
    if not any(r.members[name]['rel'][k] for k in (0, 1, 2, 6, 7, 8)):
        for q in ('dy', 'dz'):
            k = 1 if q == 'dy' else 2
            w = np.array([sol.defl(name, x)[k] for x in xs])
            want = w - (w[0] + (w[-1] - w[0])*xs/L)
            got = [mem.rel_deflection(q, x, c) for x in xs]
            sc = max(np.abs(w).max(), 1e-9)
            rec.close('%s:rel:%s' % (key, q), got, want, 1e-6, sc, 'relative deflection %s of %s in %s' % (q, name, c))
            ga = mem.rel_deflection_array(q, 20, c, xs)
            rec.close('%s:relarray:%s' % (key, q), ga[1], want, 1e-6, sc, 'relative deflection array %s of %s in %s' % (q, name, c))
