"""The plots of a member show its diagrams."""
import itertools

import numpy as np

from .. import frames, ops, ref
from ..common import MAT, force_scale, member, sup
from .p04 import loaded
from .p06 import results

ID = 'P33'
TITLE = 'The plots of a member show the diagram of the chosen combination'
RULE = ('every structure (and its deviations) x every member x combination x plot x number of points, after linear, nonlinear and P-Delta analyses; every '
        'plot after every other plot in another combination; every plot as the first request after an analysis; members that are inactive or were deleted '
        'and added again. Each plot is read back from the chart that is shown and compared with the exact diagram (linear) and with the point queries')
ASSUMPTIONS = ['at a jump of a diagram either one-sided value is accepted', 'colours, grid, tick marks and the wording of labels are not examined, only '
               'that the title names the member and combination and the value axis the quantity']

PLOTS = [('plot_shear', 'Fy', 'shear'), ('plot_shear', 'Fz', 'shear'), ('plot_moment', 'My', 'moment'), ('plot_moment', 'Mz', 'moment'),
         ('plot_torque', None, 'tors|torque'), ('plot_axial', None, 'axial'), ('plot_deflection', 'dx', 'deflection'), ('plot_deflection', 'dy', 'deflection'),
         ('plot_deflection', 'dz', 'deflection'), ('plot_rel_deflection', 'dy', 'deflection'), ('plot_rel_deflection', 'dz', 'deflection')]
KEY = {'plot_torque': 'Mx', 'plot_axial': 'Fx'}
NP = (None, 2, 3, 11, 20, 64)


class Charts:
    """matplotlib without a screen: what is shown is recorded"""
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg', force=True)
        from matplotlib import figure, pyplot
        self.plt, self.shown = pyplot, []
        pyplot.close('all')
        self.old = pyplot.show, figure.Figure.show
        pyplot.show = lambda *a, **k: self.shown.append(pyplot.gcf())
        figure.Figure.show = lambda fig, *a, **k: self.shown.append(fig)
        self.fig = figure.Figure
        return self

    def __exit__(self, *e):
        self.plt.show, self.fig.show = self.old
        self.plt.close('all')


def draw(ch, mem, p, c, n, kw=False):
    """asks for one plot; returns the curve, title and labels of the one chart it showed, or a complaint"""
    f, d, _ = p
    before = len(ch.shown)
    a = {} if n is None else {'n_points': n}
    if kw:
        a['combo_name'] = c
        if d:
            a['Direction'] = d
        getattr(mem, f)(**a)
    else:
        getattr(mem, f)(*((d,) if d else ()), c, **a)
    if len(ch.shown) != before + 1:
        return '%d charts were shown' % (len(ch.shown) - before)
    fig = ch.shown[-1]
    if len(fig.axes) != 1:
        return 'the chart has %d sets of axes' % len(fig.axes)
    ax = fig.axes[0]
    # (reference lines through zero, drawn across the axes, are not curves)
    cross = lambda l: np.array_equal(np.asarray(l.get_xdata(), float), [0, 1]) and not np.any(np.asarray(l.get_ydata(), float))
    curves = [l for l in ax.lines if not cross(l)]
    if len(curves) != 1:
        return 'the chart has %d curves' % len(curves)
    x, y = (np.asarray(v, float) for v in curves[0].get_data())
    title = ax.get_title() + ' ' + (fig._suptitle.get_text() if fig._suptitle else '')
    out = (x, y, title, ax.get_ylabel(), ax.get_xlabel())
    ch.plt.close(fig)
    return out


def value(mem, p, x, c):
    f, d, _ = p
    q = f[5:]
    return getattr(mem, q)(*((d,) if d else ()), x, c)


def check(rec, key, ch, m, name, p, c, n, sol=None, r=None, zero=False, kw=False):
    mem = m.members[name]
    L = mem.L()
    tag = '%s:%s:%s:%s:%s:%s' % (key, name, c, p[0], p[1], n)
    got = draw(ch, mem, p, c, n, kw)
    rec.step()
    what = '%s(%s) of %s in %s (n=%s)' % (p[0], p[1], name, c, n)
    if not rec.true(tag + ':chart', not isinstance(got, str), '%s: %s' % (what, got)):
        return
    x, y, title, yl, xl = got
    nn = 20 if n is None else n
    if not rec.true(tag + ':n', len(x) == nn and len(y) == nn, '%s shows %d points' % (what, len(x))):
        return
    rec.close(tag + ':x', x, np.linspace(0, L, nn), 1e-9, L, what + ' stations')
    rec.true(tag + ':title', name in title and c in title, '%s is titled %r' % (what, title))
    rec.true(tag + ':label', any(w in yl.lower() for w in p[2].split('|')), '%s is labelled %r' % (what, yl))
    if zero:
        rec.close(tag + ':zero', y, 0*y, 1e-12, 1e-9, what + ' although the member is inactive')
        return
    alts = [np.array([value(mem, p, t, c) for t in x], float)]
    rec.trace()
    q = KEY.get(p[0], p[1])
    if sol is not None:
        if q[0] == 'd':
            if not any(r.members[name]['rel'][k] for k in (0, 1, 2, 6, 7, 8)):
                k = 'xyz'.index(q[1])
                w = np.array([sol.defl(name, t)[k] for t in x])
                if 'rel' in p[0]:
                    a, b = sol.defl(name, 0)[k], sol.defl(name, L)[k]
                    w = w - a - (b - a)*x/L
                sc = max(max(np.abs(sol.defl(name, t)).max() for t in x), 1e-9)
                rec.close(tag + ':y', y, w, 1e-6, sc, what)
            return
        fs, ms = force_scale(sol, name)
        sc = fs if q[0] == 'F' else ms
        # (a load at the very end of the member may be read before or after it)
        alts = [np.array([sol.cut(name, t, s)[q] for t in x]) for s in (-1, 1)]
        if not any(abs(s) < 1e-9 for s, _ in sol.els[name][0].pt):
            alts[0][0] = alts[1][0]
    else:
        sc = max(np.abs(alts[0]).max(), np.abs(y).max(), 1e-9)
        if q[0] != 'd' and r is not None:
            jump = r[name]
            ok = np.array([all(abs(t - b) > 1e-6*L for b in jump) for t in x])
            ok[[0, -1]] = False
            x, y, alts = x[ok], y[ok], [alts[0][ok]]
    tol = 1e-6*sc
    good = np.zeros(len(x), bool)
    for a in alts:
        good |= np.abs(a - y) <= tol
    rec.true(tag + ':y', good.all(), '%s shows %s where the diagram has %s' % (what, y[~good][:4], [a[~good][:4] for a in alts]))


def breaks(h, names):
    r = ref.Ref()
    for op in h:
        r.apply(op)
    s = r.solve(names[0])
    return {n: s.breaks(n) for n in r.members}


STRUCT = ('portal', 'space', 'cont', 'braced', 'springs', 'settle', 'mixed')


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in ('single', 'axial', 'portal', 'cont'):
        for a in ('analyze', 'analyze_linear', 'pdelta'):
            if th or (s, a) in (('single', 'analyze'), ('axial', 'pdelta'), ('cont', 'pdelta'), ('cont', 'analyze_linear')):
                out.append(['seq', s, a])
            if th or s == 'axial' or (s, a) == ('cont', 'analyze'):
                out.append(['first', s, a])
    for s in STRUCT:
        for v in frames.variants(s, 1 if th or s == 'cont' else 0):
            out.append(['lin', s, v])
    for k in ('tension', 'comp'):
        out.append(['off', k])
    for s in ('portal', 'cont'):
        for i in range(3):
            out.append(['again', s, i])
    return out


def run(case, rec):
    rec.history = case
    key = ':'.join(str(x) if not isinstance(x, list) else '+'.join(x) for x in case)
    with Charts() as ch, ops.quiet():
        globals()['c_' + case[0]](rec, key, ch, case)


def c_lin(rec, key, ch, case):
    h, loads = frames.history(case[1], case[2])
    lo = [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)]
    h = h + lo + [['combo', 'sum', {'K0': 1., 'K1': -1.4, 'K2': .7}], ['combo', '1.2D+1.6L', {'K0': 1.2, 'K2': 1.6}], ['combo', 'mid', {'K1': 2.}]]
    r = ref.Ref()
    for op in h:
        r.apply(op)
    shells = case[1] == 'mixed'
    try:
        sol = None if shells else {c: r.solve(c) for c in r.combos}
    except ref.Unstable:
        return
    m = ops.build(h)
    try:
        ops.apply_real(m, ['analyze', {}])
    except Exception as e:
        # without a reference solution a refused variant says nothing about plots; P22 decides whether it may be refused
        if shells and case[2] and 'nstable' in str(e):
            return
        raise
    rec.step()
    for k, c in enumerate(m.load_combos):
        for i, n in enumerate(m.members):
            for j, p in enumerate(PLOTS):
                for q, np_ in enumerate(NP):
                    if np_ == (None, 11)[(i + j) % 2] or (not case[2] and (q + j + k) % 2 == 0):
                        check(rec, key, ch, m, n, p, c, np_, sol[c] if sol else None, r if sol else {n: [b for b in brk(m, n)]}, kw=(i + j + k) % 3 == 0)
        rec.state((key, c))
        rec.outcome((key, c))


def brk(m, n):
    """places where a diagram may jump: concentrated loads and nodes on the member"""
    mem = m.members[n]
    L = mem.L()
    out = [0, L] + [l[2] for l in mem.PtLoads]
    a = np.array([mem.i_node.X, mem.i_node.Y, mem.i_node.Z], float)
    b = np.array([mem.j_node.X, mem.j_node.Y, mem.j_node.Z], float)
    for o in m.nodes.values():
        v = np.array([o.X, o.Y, o.Z], float) - a
        t = v @ (b - a)/L
        if 0 < t < L and np.linalg.norm(v - t*(b - a)/L) < 1e-6*L:
            out.append(t)
    return out


def c_seq(rec, key, ch, case):
    """every plot after every other plot of the same or another member in another combination"""
    h, names = loaded(case[1])
    m = ops.build(h)
    ops.apply_real(m, [case[2], {}])
    jumps = {n: brk(m, n) for n in m.members}
    was = results(m, names[0]), results(m, names[1])
    mems = list(m.members)[:2]
    for n in m.members:
        for c in names:
            for p in PLOTS:
                for k in NP[::2]:
                    check(rec, key, ch, m, n, p, c, k, None, jumps)
    for p, q in itertools.product(PLOTS, repeat=2):
        check(rec, key + ':before', ch, m, mems[-1], q, names[1], 5, None, jumps)
        check(rec, key + ':after:%s%s' % q[:2], ch, m, mems[0], p, names[0], 7, None, jumps)
        rec.state((key, p, q))
    now = results(m, names[0]), results(m, names[1])
    for a, b in zip(was, now):
        for (lab, v), (_, w) in zip(a, b):
            rec.close('%s:kept:%s' % (key, lab), w, v, 1e-12, 1e-9, '%s after plotting' % lab)
    rec.outcome(key)


def c_first(rec, key, ch, case):
    """every plot as the first request after an analysis, and again after the loads changed"""
    h, names = loaded(case[1])
    m = ops.build(h)
    for n in list(m.members)[:2]:
        for p in PLOTS:
            for c in names[:2]:
                ops.apply_real(m, [case[2], {}])
                check(rec, key, ch, m, n, p, c, None, None, {n: brk(m, n)})
                rec.state((key, n, p, c))
    # the chart follows the model: more load, another analysis
    n = list(m.members)[0]
    for i, p in enumerate(PLOTS):
        m.add_member_dist_load(n, 'Fy', -.01, -.01*i, case='K0')
        ops.apply_real(m, [case[2], {}])
        g = draw(ch, m.members[n], p, names[0], 9)
        rec.step()
        if not isinstance(g, str):
            m2 = ops.build(h)
            for k in range(i + 1):
                m2.add_member_dist_load(n, 'Fy', -.01, -.01*k, case='K0')
            ops.apply_real(m2, [case[2], {}])
            want = draw(ch, m2.members[n], p, names[0], 9)
            rec.close('%s:follow:%s%s' % (key, *p[:2]), g[1], want[1], 1e-8, np.abs(want[1]).max() + 1e-9, '%s of %s after another load' % (p[0], n))
        else:
            rec.fail('%s:follow:%s%s' % (key, *p[:2]), g)
    rec.outcome(key)


def c_off(rec, key, ch, case):
    """members that carry nothing because they are tension- or compression-only show a zero diagram"""
    h = [MAT] + [['node', n, x, y, 0] for n, x, y in (('A', 0, 0), ('B', 10, 0), ('T', 5, 6), ('C', 5, 12))]
    kw = {case[1] + '_only': True}
    h += [member('L', 'A', 'T'), member('R', 'B', 'T'), member('U', 'C', 'T', **kw), member('V', 'A', 'C', **kw)]
    h += [sup('A', '111111'), sup('B', '111111'), sup('C', '111111')]
    for i, (d, v) in enumerate((('FY', 5.), ('FY', -5.), ('FX', 2.))):
        h += [['nload', 'T', d, v, 'K%d' % i], ['combo', 'c%d' % i, {'K%d' % i: 1.}]]
    m = ops.build(h)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    for c in m.load_combos:
        for n in m.members:
            off = not m.members[n].active[c]
            for p in PLOTS:
                if 'defl' in p[0] and off:
                    continue
                for k in (None, 6):
                    check(rec, key, ch, m, n, p, c, k, None, {n: brk(m, n)}, zero=off)
            rec.state((key, c, n, off))
    rec.outcome(key)


def c_again(rec, key, ch, case):
    """a member that was renamed, or deleted and added again, shows its present diagram under its present name"""
    h, names = loaded(case[1])
    m = ops.build(h)
    ops.apply_real(m, ['analyze', {}])
    for n in m.members:
        for p in PLOTS[:6]:
            draw(ch, m.members[n], p, names[0], 5)
    if case[2] == 0:
        m.rename()
    elif case[2] == 1:
        n = list(m.members)[0]
        mem = m.members[n]
        m.delete_member(n)
        m.add_member(n, mem.j_node.name, mem.i_node.name, mem.material_name, mem.Iy, mem.Iz, mem.J, mem.A)
        m.add_member_dist_load(n, 'Fy', -.1, -.2, case='K0')
    else:
        m.add_load_combo('extra (1)', {'K0': -2., 'K1': .25})
        names = names + ['extra (1)']
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    for n in m.members:
        for c in names:
            for p in PLOTS:
                check(rec, key, ch, m, n, p, c, 12, None, {n: brk(m, n)})
        rec.state((key, n))
    rec.outcome(key)
