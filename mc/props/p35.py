"""Cross-sections: members use their properties; yield surface and gradient are those of the section."""
import itertools

import numpy as np

from .. import frames, ops
from .p06 import results

ID = 'P35'
TITLE = 'Members use their cross-section; the yield surface and its gradient are exact'
RULE = ('every structure x every way of giving each member its properties (values, Section, SteelSection, an own Section class, conflicting values) x analysis x later '
        'operation; the yield surface and gradient of several sections on the complete grid of axial force and two moments; the default gradient of '
        'own classes with every monomial up to degree six')
ASSUMPTIONS = ['pushover analysis is unfinished in this version and not examined']

SHAPES = [('a', 9.13, 37.1, 110., .536, 14.1, 30.4, 50.), ('b', 19.1, 174., 533., 2.18, 44.1, 96.8, 36.), ('c', 2.5e-3, 4e-7, 9e-6, 1e-8, 2e-5, 9e-5, 3.5e8),
          ('d', 1., 1., 1., 1., 1., 1., 1.), ('e', 40., 900., 80., 30., 120., 35., 46.)]
GRID = (-1.3, -1., -.6, -.25, 0, .1, .5, .85, 1., 1.4)


def surface(p, y, z):
    """McGuire, Gallagher and Ziemian, Matrix Structural Analysis, Eq. 10.18 and its derivatives"""
    return (p**2 + z**2 + y**4 + 3.5*p**2*z**2 + 3*p**6*y**2 + 4.5*z**4*y**2,
            2*p + 7*p*z**2 + 18*p**5*y**2,
            4*y**3 + 6*p**6*y + 9*z**4*y,
            2*z + 7*p**2*z + 18*z**3*y**2)


def cases(tier):
    th = tier != 'quick'
    out = [['steel', i] for i in range(len(SHAPES))] + [['own', k] for k in range(3)]
    for s in frames.FRAMES:
        for how in ('analyze', 'analyze_linear', 'pdelta') if th else ('analyze', 'pdelta'):
            out.append(['use', s, how])
    for s in frames.FRAMES:
        for later in ('rename', 'merge', 'split', 'del', 'two'):
            out.append(['later', s, later])
    return out


def run(case, rec):
    rec.history = case
    key = ':'.join(str(x) for x in case)
    globals()['c_' + case[0]](rec, key, case)
    rec.outcome(key)


def c_steel(rec, key, case):
    from PyNite.Section import SteelSection
    name, A, Iy, Iz, J, Zy, Zz, fy = SHAPES[case[1]]
    m = ops.new_model()
    m.add_material('other', 1., 1., .1, 1., 7.)
    m.add_material('mat', 29000., 11200., .3, 1e-4, fy)
    s = SteelSection(m, name, A, Iy, Iz, J, Zy, Zz, 'mat')
    m.add_section(name, s)
    rec.step()
    for a, w in (('A', A), ('Iy', Iy), ('Iz', Iz), ('J', J), ('Zy', Zy), ('Zz', Zz), ('ry', (Iy/A)**.5), ('rz', (Iz/A)**.5), ('fy', fy)):
        rec.close('%s:%s' % (key, a), getattr(m.sections[name], a), w, 1e-12, 0, 'property ' + a)
    Py, My, Mz = fy*A, fy*Zy, fy*Zz
    for p, y, z in itertools.product(GRID, repeat=3):
        tag = '%s:%g,%g,%g' % (key, p, y, z)
        w = surface(p, y, z)
        ph = s.Phi(p*Py, y*My, z*Mz)
        rec.close(tag + ':phi', ph, w[0], 1e-9, 1., 'yield function at %g Py, %g Mpy, %g Mpz' % (p, y, z))
        g = np.asarray(s.G(p*Py, y*My, z*Mz), float)
        if rec.true(tag + ':shape', g.shape == (6, 1), 'gradient has shape %s' % (g.shape,)):
            rec.close(tag + ':zero', g[1:4, 0], [0, 0, 0], 1e-12, 1e-12, 'gradient by shear forces and torque')
            rec.close(tag + ':G', g[[0, 4, 5], 0]*[Py, My, Mz], w[1:], 1e-9, 1., 'gradient at %g Py, %g Mpy, %g Mpz' % (p, y, z))
        rec.trace()
        rec.state((key, p, y, z))
    for k in range(3):
        f = [0, 0, 0]
        for sgn in (1, -1):
            f[k] = sgn*(Py, My, Mz)[k]
            rec.close('%s:full%d%+d' % (key, k, sgn), s.Phi(*f), 1., 1e-9, 1., 'yield function at full plastic strength')


def c_own(rec, key, case):
    """a section class that only has a yield function gets its gradient by differentiation"""
    from PyNite.Section import Section
    m = ops.new_model()
    m.add_material('mat', 29000., 11200., .3, 1e-4, 50.)
    m.add_material('nofy', 29000., 11200., .3, 1e-4)
    s0 = Section(m, 'plain', 1., 2., 3., 4., 'nofy')
    rec.true(key + ':nofy', s0.fy is None, 'strength of a material without one is %r' % s0.fy)
    for e in itertools.product(range(5 - case[1]), repeat=3):
        if sum(e) > 6:
            continue

        class Own(Section):
            def Phi(self, fx, my, mz):
                return fx**e[0]*my**e[1]*mz**e[2] + .5*fx - .25*my + 2*mz
        s = Own(m, 'o', 2., 3., 4., 5., 'mat')
        for v in itertools.product((-1.1, 0., .7, 2.), repeat=3):
            w = []
            for k in range(3):
                d = e[k]*v[k]**(e[k] - 1) if e[k] else 0
                for j in range(3):
                    d *= v[j]**e[j] if j != k else 1
                w.append(d + (.5, -.25, 2)[k])
            g = np.asarray(s.G(*v), float)
            if rec.true('%s:%s:%s:shape' % (key, e, v), g.shape == (6, 1), 'gradient has shape %s' % (g.shape,)):
                rec.close('%s:%s:%s' % (key, e, v), g.ravel(), [w[0], 0, 0, 0, w[1], w[2]], 1e-5, max(1., max(map(abs, w))), 'default gradient')
            rec.trace()
        rec.state((key, e))


def give(m, op, kind, n):
    """adds a member in one of the ways of giving it a cross-section"""
    from PyNite.Section import Section, SteelSection
    _, name, i, j, mat, Iy, Iz, J, A = op[:9]
    kw = dict(op[9]) if len(op) > 9 else {}
    if kind == 0:
        return m.add_member(name, i, j, mat, Iy, Iz, J, A, **kw)
    sec = 'sec%d' % n
    # (the section's own material gives its strength, the member's its stiffness)
    if 'weak' not in m.materials:
        m.add_material('weak', 1., 1., .1, 1., 3.)
    if kind == 1:
        s = Section(m, sec, A, Iy, Iz, J, 'weak')
    elif kind == 2:
        s = SteelSection(m, sec, A, Iy, Iz, J, 1.5*Iy, 1.5*Iz, 'weak')
    else:
        class Own(Section):
            def Phi(self, fx, my, mz):
                return (fx/self.A)**2
        s = Own(m, 'another name', A, Iy, Iz, J, 'weak')
    m.add_section(sec, s)
    if kind == 3:
        # values next to a section are ignored
        return m.add_member(name, i, j, mat, 7*Iy, .1*Iz, 3*J, 2*A, section_name=sec, **kw)
    return m.add_member(name, i, j, mat, section_name=sec, **kw)


def make(h, kinds):
    m = ops.new_model()
    n = 0
    with ops.quiet():
        for op in h:
            if op[0] == 'member':
                give(m, op, kinds[n % len(kinds)], n)
                n += 1
            else:
                ops.apply_real(m, op)
    return m


def same(rec, key, a, b, what, tol=1e-9):
    for (lab, x), (l2, y) in zip(a, b):
        rec.close('%s:%s' % (key, lab), x, y, tol, 1e-6, '%s %s' % (what, lab))
    rec.trace()


def histories(s):
    h, loads = frames.history(s, [])
    return h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)] + [['selfw', 'FY', -1., 'K1'],
                ['combo', 'c', {'K0': 1., 'K1': -1.4}], ['combo', 'd', {'K1': 1.}]]


def c_use(rec, key, case):
    h = histories(case[1])
    k = sum(op[0] == 'member' for op in h)
    m0 = make(h, [0])
    ops.apply_real(m0, [case[2], {}])
    want = {c: results(m0, c) for c in m0.load_combos}
    for kinds in itertools.product(range(4), repeat=min(k, 3)):
        m = make(h, kinds)
        ops.apply_real(m, [case[2], {}])
        rec.step()
        for c in want:
            same(rec, '%s:%s:%s' % (key, kinds, c), results(m, c), want[c], 'sections given as %s:' % (kinds,))
        for n, (name, mem) in enumerate(m.members.items()):
            kd = kinds[n % len(kinds)]
            for q in [mem] + list(mem.sub_members.values()):
                rec.true('%s:%s:%s:section' % (key, kinds, q.name), q.section is (m.sections['sec%d' % n] if kd else None), 'section of %s is %r' % (q.name, q.section))
        rec.state((key, kinds))


def c_later(rec, key, case):
    """shared sections, and members that are renamed, merged, split by nodes, deleted and added"""
    from PyNite.Section import Section
    h = histories(case[1])
    out = []
    for kinds in ([0], [1], [2, 3], [3, 1, 0]):
        m = make(h, kinds)
        first = [op for op in h if op[0] == 'member'][0]
        name = first[1]
        for rep in range(2):
            if case[2] == 'rename' and rep:
                m.rename()
            if case[2] == 'merge' and rep:
                n = m.nodes[first[2]]
                m.add_node('dup', n.X, n.Y, n.Z)
                m.add_node('far', n.X + 1., n.Y + 2., n.Z + 4.)
                give(m, ['member', 'br', 'dup', 'far'] + list(first[4:9]), kinds[0], 77)
                m.add_node_load('far', 'FX', 1., 'K0')
                with ops.quiet():
                    m.merge_duplicate_nodes()
            if case[2] == 'split' and rep:
                a, b = m.nodes[first[2]], m.nodes[first[3]]
                m.add_node('mid', *(.4*x + .6*y for x, y in ((a.X, b.X), (a.Y, b.Y), (a.Z, b.Z))))
                m.add_node_load('mid', 'FZ', 1., 'K0')
            if case[2] == 'del' and rep:
                mem = m.members[name]
                rels = list(mem.Releases)
                m.delete_member(name)
                give(m, ['member', name] + list(first[2:]), kinds[-1], 78)
                m.def_releases(name, *rels)
            if case[2] == 'two':
                # a second member with the section of the first
                if not rep:
                    m.add_node('tip', 1.5, 30., 2.)
                    sec = m.members[name].section
                    if sec is None:
                        m.add_member('tw', first[3], 'tip', *first[4:9])
                    else:
                        m.add_member('tw', first[3], 'tip', first[4], section_name=[k for k, v in m.sections.items() if v is sec][0])
                    m.add_node_load('tip', 'FX', 1., 'K0')
                else:
                    m.delete_member('tw')
                    m.def_support('tip', *[True]*6)
            ops.apply_real(m, ['analyze', {}])
            rec.step()
            out.append((rep, {c: [x for x in results(m, c)] for c in ('c', 'd')}))
        rec.state((key, kinds))
    base = dict(out[:2])
    for k, (rep, got) in enumerate(out[2:]):
        for c in got:
            same(rec, '%s:%d:%s' % (key, k, c), got[c], base[rep][c], 'with sections, stage %d,' % rep)
