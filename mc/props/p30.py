"""Reports list the model and the results of every solved load combination."""
import html.parser
import importlib
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import frames, ops, ref
from ..common import rel

ID = 'P30'
TITLE = 'Reports list the model and its results as they are'
RULE = ('every structure and (thorough: every deviation of it) x analysis, rectangular and skew patches of plates and quads in every plane, '
        'every section of the report switched off alone (thorough: every pair), reports before an analysis, after an analysis by tags, after a '
        'change and a second analysis, names with special characters; every cell of every table is compared with the model')
ASSUMPTIONS = ['the converter to PDF receives the finished report (a stand-in stores it)', 'numbers are printed with at least three digits']
SECTIONS = {'node_table': ['Nodes & Supports'], 'member_table': ['Members'], 'member_releases': ['Member End Releases'], 'plate_table': ['Plates', 'Quads'],
            'node_reactions': ['Node Reactions'], 'node_displacements': ['Node Displacements'], 'member_end_forces': ['Member End Forces'],
            'member_internal_forces': ['Member Max/Min Internal Forces'], 'plate_corner_forces': ['Plate Out-of-Plane Corner Forces'],
            'plate_center_forces': ['Plate Out-of-Plane Center Forces'], 'plate_corner_membrane': ['In-Plane (Membrane) Corner Stresses'],
            'plate_center_membrane': ['In-Plane (Membrane) Center Stresses']}
ENGINES = ('analyze', 'analyze_linear', 'pdelta')
EDITS = ('before', 'tags', 'again', 'names', 'twice', 'cleared')


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in frames.ALL:
        for e in ENGINES if th else ENGINES[len(s) % 3:][:1] + ('analyze',)*(len(s) % 3 > 0):
            out.append(['frame', s, [], e])
        for i, v in enumerate(frames.variants(s, 1)[1:]):
            if th or i % 9 == len(s) % 9:
                out.append(['frame', s, v, ENGINES[i % 3]])
        for e in EDITS if th or s in ('portal', 'mixed', 'space') else EDITS[len(s) % 6:][:1]:
            out.append(['edit', s, e])
    for k in ('quad', 'plate', 'both'):
        for pl in ('XY', 'YZ', 'XZ', 'SK'):
            out += [['shell', k, pl, n] for n in range(4)]
    for s in SECTIONS:
        out.append(['off', [s]])
        out.append(['only', [s]])
    for p in itertools.combinations(SECTIONS, 2):
        if th or (list(SECTIONS).index(p[0]) + list(SECTIONS).index(p[1])) % 4 == 0:
            out.append(['off', list(p)])
    return out


class Page(html.parser.HTMLParser):
    """tables of a page: (heading, header rows, body rows)"""
    def __init__(self):
        super().__init__()
        self.tables, self.heading, self.cell, self.where = [], None, None, None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag in ('h2', 'h3', 'h4'):
            self.heading, self.where = '', 'heading'
        elif tag == 'table':
            self.tables.append((self.heading, [], []))
        elif tag == 'tr':
            self.tables[-1][2].append([])
        elif tag in ('td', 'th'):
            if not self.tables[-1][2]:
                self.tables[-1][2].append([])
            self.cell = [tag, '', int(a.get('colspan') or 1), int(a.get('rowspan') or 1)]
            self.tables[-1][2][-1].append(self.cell)
            self.where = 'cell'
        elif tag not in ('sub', 'sup', 'b', 'i', 'span', 'em', 'strong'):
            if self.where == 'cell' and tag not in ('br', 'thead', 'tbody'):
                self.cell[1] += '<%s>' % tag         # an object name taken for a tag

    def handle_endtag(self, tag):
        if tag in ('td', 'th', 'h2', 'h3', 'h4'):
            self.where = None

    def handle_data(self, data):
        if self.where == 'cell':
            self.cell[1] += data
        elif self.where == 'heading':
            self.heading += data


def tables(text):
    """{heading: (column titles, rows)}; two rows of column titles are joined with a slash"""
    p = Page()
    p.feed(text)
    out = {}
    for heading, _, rows in p.tables:
        grid = {}
        nh = 0
        for i, r in enumerate([r for r in rows if r and all(c[0] == 'th' for c in r)]):
            nh += 1
            j = 0
            for c in r:
                while (i, j) in grid:
                    j += 1
                for di in range(c[3]):
                    for dj in range(c[2]):
                        grid[(i + di, j + dj)] = c[1].strip() if not di else ''
                j += c[2]
        ncol = 1 + max(j for _, j in grid)
        titles = ['/'.join(x for x in (grid.get((i, j), '') for i in range(nh)) if x) for j in range(ncol)]
        out[(heading or '').strip()] = (titles, [[c[1].strip() for c in r] for r in rows if r and any(c[0] == 'td' for c in r)])
    return out


def report(m, **kw):
    """the finished report as handed to the converter"""
    d = tempfile.mkdtemp(prefix='report-')
    path = os.environ['PATH']
    try:
        with open(d + '/wkhtmltopdf', 'w') as f:
            f.write('#!/bin/sh\nfor a; do o="$a"; done\ncat > "$o"\n')
        os.chmod(d + '/wkhtmltopdf', 0o755)
        os.environ['PATH'] = d + ':' + path
        mod = importlib.import_module('PyNite.Reporting')
        with ops.quiet():
            mod.create_report(m, output_filepath=d + '/report.pdf', **kw)
        with open(d + '/report.pdf') as f:
            return f.read()
    finally:
        os.environ['PATH'] = path
        shutil.rmtree(d)


def num(x):
    return float(np.ravel(x)[0])


def expected(m, combos):
    """{heading: (column titles, {row key: values})}"""
    out = {}
    D = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
    out['Nodes & Supports'] = (['Node', 'X', 'Y', 'Z'] + ['Support ' + d for d in ('X', 'Y', 'Z', 'RX', 'RY', 'RZ')],
                               {(n,): [x.X, x.Y, x.Z] + [bool(getattr(x, 'support_' + d)) for d in D] for n, x in m.nodes.items()})
    out['Members'] = (['Member', 'i-Node', 'j-Node', 'A', 'Iy', 'Iz', 'J', 'E', 'G'],
                      {(n,): [x.i_node.name, x.j_node.name, x.A, x.Iy, x.Iz, x.J, m.materials[x.material_name].E, m.materials[x.material_name].G] for n, x in m.members.items()})
    out['Member End Releases'] = (['Member'] + [a + k + e for e in 'ij' for a in ('\u0394', '\u03b8') for k in 'xyz'],
                                  {(n,): [bool(v) for v in x.Releases] for n, x in m.members.items()})
    for h, els in (('Plates', m.plates), ('Quads', m.quads)):
        out[h] = ([h[:-1], 'i-Node', 'j-Node', 'm-Node', 'n-Node', 't', 'E', '\u03bd'],
                  {(n,): [x.i_node.name, x.j_node.name, x.m_node.name, x.n_node.name, x.t, x.E, x.nu] for n, x in els.items()})
    out['Node Reactions'] = (['Node', 'LC', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'],
                             {(n, c): [getattr(x, 'Rxn' + d)[c] for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] for c in combos for n, x in m.nodes.items()})
    out['Node Displacements'] = (['Node', 'LC'] + ['\u0394' + k for k in 'XYZ'] + ['\u03b8' + k for k in 'XYZ'],
                                 {(n, c): [getattr(x, d)[c] for d in D] for c in combos for n, x in m.nodes.items()})
    ends, ext = {}, {}
    for c in combos:
        for n, x in m.members.items():
            L = x.L()
            ends[(n, c)] = [x.axial(0, c), x.axial(L, c), x.shear('Fy', 0, c), x.shear('Fz', 0, c), x.shear('Fy', L, c), x.shear('Fz', L, c),
                            x.moment('My', 0, c), x.moment('Mz', 0, c), x.moment('My', L, c), x.moment('Mz', L, c), x.torque(0, c), x.torque(L, c)]
            ext[(n, c)] = [x.max_axial(c), x.min_axial(c), x.max_shear('Fy', c), x.min_shear('Fy', c), x.max_shear('Fz', c), x.min_shear('Fz', c),
                           x.max_moment('My', c), x.min_moment('My', c), x.max_moment('Mz', c), x.min_moment('Mz', c), x.max_torque(c), x.min_torque(c)]
    out['Member End Forces'] = (['Member', 'LC', 'Pi', 'Pj', 'Vyi', 'Vzi', 'Vyj', 'Vzj', 'Myi', 'Mzi', 'Myj', 'Mzj', 'Ti', 'Tj'], ends)
    out['Member Max/Min Internal Forces'] = (['Member', 'LC', 'Pmax', 'Pmin', 'Vy,max', 'Vy,min', 'Vz,max', 'Vz,min', 'My,max', 'My,min', 'Mz,max', 'Mz,min', 'Tmax', 'Tmin'], ext)
    cf, ef, cs, es = {}, {}, {}, {}
    for els in (m.plates, m.quads):
        for n, x in els.items():
            if els is m.quads:
                pts = ((-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0))
            else:
                P = [np.array([y.X, y.Y, y.Z]) for y in (x.i_node, x.j_node, x.m_node, x.n_node)]
                w, h = np.linalg.norm(P[1] - P[0]), np.linalg.norm(P[3] - P[0])
                pts = ((0, 0), (w, 0), (w, h), (0, h), (w/2, h/2))
            for c in combos:
                f = [[num(v) for v in np.ravel(x.shear(a, b, True, c))] + [num(v) for v in np.ravel(x.moment(a, b, True, c))] for a, b in pts]
                s = [[num(v) for v in np.ravel(x.membrane(a, b, True, c))] for a, b in pts]
                cf[(n, c)], ef[(n, c)] = sum(f[:4], []), f[4]
                cs[(n, c)], es[(n, c)] = sum(s[:4], []), s[4]
    F = ['Qx', 'Qy', 'Mx', 'My', 'Mxy']
    S = ['\u03c3x', '\u03c3y', '\u03c4xy']
    cor = ['i-Node', 'j-Node', 'm-Node', 'n-Node']
    # a heading above several columns stands at the first of them or at all
    out['Plate Out-of-Plane Corner Forces'] = (['Plate', 'LC'] + [k + '/' + f for k in cor for f in F], cf)
    out['Plate Out-of-Plane Center Forces'] = (['Plate', 'LC'] + F, ef)
    out['In-Plane (Membrane) Corner Stresses'] = (['Plate', 'LC'] + [k + '/' + f for k in cor for f in S], cs)
    out['In-Plane (Membrane) Center Stresses'] = (['Plate', 'LC'] + S, es)
    return out


def check(rec, key, m, combos, off=(), **kw):
    """one report against the model"""
    want = expected(m, combos)
    before = {c: (ops.disp(m, c), ops.reac(m, c)) for c in combos}
    got = tables(report(m, **kw))
    rec.step()
    rec.true(key + ':results', all(np.array_equal(a[n], b[n]) for c in combos for a, b in zip(before[c], (ops.disp(m, c), ops.reac(m, c))) for n in a),
             'writing the report changed results')
    for sec, heads in SECTIONS.items():
        for h in heads:
            if sec in off:
                rec.true('%s:%s:off' % (key, h), h not in got, 'section %s was switched off but is in the report' % h)
                continue
            if not rec.true('%s:%s:in' % (key, h), h in got, 'section %s is missing (sections: %s)' % (h, list(got))):
                continue
            titles, rows = got[h]
            cols, vals = want[h]
            if not rec.true('%s:%s:columns' % (key, h), sorted(titles) == sorted(cols), 'section %s: columns %s, expected %s' % (h, titles, cols)):
                continue
            nk = 2 if cols[1] == 'LC' else 1
            order = [titles.index(c) for c in cols]
            seen = {}
            for r in rows:
                r = [r[j] for j in order]
                seen.setdefault(tuple(r[:nk]), []).append(r[nk:])
            names = {tuple(str(x) for x in k): k for k in vals}
            # a plate and a quad may share a name: rows are then taken in order
            rec.true('%s:%s:rows' % (key, h), set(seen) == set(names) and all(len(x) == 1 for x in seen.values()),
                     'section %s: rows %s, expected %s' % (h, sorted(set(seen) ^ set(names))[:6], sorted(names)[:6]))
            sc = {}
            for v in vals.values():
                for c, x in zip(cols[nk:], v):
                    if isinstance(x, (int, float)):
                        sc[c] = max(sc.get(c, 0), abs(x))
            top = max(list(sc.values()) + [0])
            digits = 4 if 'Plate' != cols[0] or h == 'Plates' else 3
            for k, k0 in names.items():
                for r in seen.get(k, [])[:1]:
                    for c, cell, x in zip(cols[nk:], r, vals[k0]):
                        rec.ev()
                        if isinstance(x, (str, bool)):
                            ok = cell == str(x)
                        else:
                            try:
                                ok = abs(float(cell) - x) <= .51*10**(1 - digits)*abs(x) + 1e-9*top
                            except ValueError:
                                ok = False
                        if not ok:
                            rec.fail('%s:%s:%s:%s' % (key, h, '/'.join(k), c), 'report section %s, %s, column %s shows %r, the model has %r' % (h, k, c, cell, x))
    rec.trace()
    rec.state(key)
    rec.outcome(key)


def loaded(s, v=(), names=None):
    h, loads = frames.history(s, list(v))
    h = h + [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads)] + [
        ['combo', 'A', {'K0': 1.0, 'K1': .5, 'K2': -.7}, ['one']], ['combo', 'B', {'K1': -1.2, 'K2': 1.0}, ['two']], ['combo', 'Combo 1', {'K0': .3}, ['one', 'two']]]
    r = ref.Ref()
    for op in h:
        r.apply(op)
    for c in r.combos:
        r.solve(c)
    return h


def frame(case, rec):
    _, s, v, e = case
    try:
        h = loaded(s, v)
    except ref.Unstable:
        return
    rec.history = h
    m = ops.build(h)
    ops.apply_real(m, [e, {}])
    check(rec, '%s:%s:%s' % (s, '+'.join(v), e), m, list(m.load_combos))


def edit(case, rec):
    _, s, e = case
    h = loaded(s)
    rec.history = h
    key = 'edit:%s:%s' % (s, e)
    m = ops.build(h)
    if e == 'before':
        check(rec, key, m, [])
        return
    if e == 'tags':
        for t, cs in ((['one'], ['A', 'Combo 1']), (['two'], ['B', 'Combo 1']), (['one', 'two'], ['A', 'B', 'Combo 1'])):
            m = ops.build(h)
            ops.apply_real(m, ['analyze', dict(combo_tags=t)])
            check(rec, key + ':' + '+'.join(t), m, cs)
        return
    if e == 'names':
        for kind, d in (('nodes', m.nodes), ('members', m.members), ('plates', m.plates), ('quads', m.quads)):
            new = ('%s <%d>', 'a&%s%d', '"%s" %d', "%s's %d", '%s&lt;%d')
            for i, n in enumerate(list(d)):
                o = d.pop(n)
                o.name = new[i % 5] % (n, i)
                d[o.name] = o
        m.load_combos['<&>'] = m.load_combos.pop('A')
        m.load_combos['<&>'].name = '<&>'
        ops.apply_real(m, ['analyze', {}])
        check(rec, key, m, list(m.load_combos))
        return
    ops.apply_real(m, ['analyze', {}])
    check(rec, key + ':1', m, list(m.load_combos))
    if e == 'twice':
        check(rec, key + ':2', m, list(m.load_combos))
    elif e == 'again':
        n = list(m.nodes)[-1]
        m.add_node_load(n, 'FY', -1.7, 'K1')
        m.add_load_combo('New', {'K1': 2.0})
        ops.apply_real(m, ['pdelta', {}])
        check(rec, key + ':2', m, list(m.load_combos))
    else:
        for c in ('A', 'B'):
            m.load_combos.pop(c)
        ops.apply_real(m, ['analyze_linear', {}])
        check(rec, key + ':2', m, list(m.load_combos))


def patch(kind, pl, k=0):
    """three elements of unequal size, one corner of each loaded"""
    X = {'XY': ((1, 0, 0), (0, 1, 0)), 'YZ': ((0, 1, 0), (0, 0, 1)), 'XZ': ((1, 0, 0), (0, 0, 1)), 'SK': ((.6, 0, .8), (-.48, .8, .36))}[pl]
    a, b = np.array(X[0], float), np.array(X[1], float)
    c = np.cross(a, b)
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    xs, ys = (0, 2.0, 5.0, 6.5), (0, 1.7)
    for j, y in enumerate(ys):
        for i, x in enumerate(xs):
            m.add_node('N%d%d' % (i, j), *(np.array([1., 2., 3.]) + a*x + b*y))
    for i in range(3):
        q = ['N%d0' % i, 'N%d0' % (i + 1), 'N%d1' % (i + 1), 'N%d1' % i]
        q = q[(i + k) % 4:] + q[:(i + k) % 4]
        if kind == 'quad' or kind == 'both' and (i + k) % 2:
            m.add_quad('Q%d' % i, *q, .4, 'C')
            m.add_quad_surface_pressure('Q%d' % i, .03*(i + 1), 'K%d' % (i % 2))
        else:
            m.add_plate('P%d' % i, *q, .4, 'C')
            m.add_plate_surface_pressure('P%d' % i, .03*(i + 1), 'K%d' % (i % 2))
    for n in ('N00', 'N01') if k < 2 else ('N00', 'N30'):
        m.def_support(n, True, True, True, True, True, True)
    for n, v, l in (('N31', c*.2, 'K0'), ('N20', a*.7 - b*.4, 'K1'), ('N11', b*.5 + a*.1, 'K0')):
        for d in range(3):
            m.add_node_load(n, 'F' + 'XYZ'[d], v[d], l)
    m.add_load_combo('A', {'K0': 1.0, 'K1': -.6})
    m.add_load_combo('Combo 1', {'K0': .5})
    m.add_load_combo('B', {'K1': 1.5})
    return m


def shell(case, rec):
    m = patch(*case[1:])
    rec.history = case
    ops.apply_real(m, ['analyze', {}])
    check(rec, ':'.join(map(str, case)), m, list(m.load_combos))


def switched(case, rec):
    h = loaded('mixed')
    rec.history = h
    m = ops.build(h)
    ops.apply_real(m, ['analyze', {}])
    off = case[1] if case[0] == 'off' else [s for s in SECTIONS if s not in case[1]]
    check(rec, case[0] + ':' + '+'.join(case[1]), m, list(m.load_combos), off=off, **{s: False for s in off})


def run(case, rec):
    dict(frame=frame, edit=edit, shell=shell, off=switched, only=switched)[case[0]](case, rec)
