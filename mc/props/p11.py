"""Names: every kind of object, explicit and automatic names mixed with deletions."""
import itertools

from .. import ops

ID = 'P11'
TITLE = 'Every name identifies exactly one object and is found again by name'
RULE = ('for each kind of object every sequence up to depth d over {add with automatic name (None or empty), add under each of four names '
        'that automatic naming would also produce, remove each of them}; more than a hundred objects named automatically; every ordered pair of kinds sharing one name')
ASSUMPTIONS = ['plates, quads, materials and load combinations have no delete method; entries are removed from the public dictionaries']

PREFIX = dict(node='N', aux='AN', mat='M', spring='S', member='M', plate='P', quad='Q', mesh='MSH', sec='SEC')
REG = dict(node='nodes', aux='aux_nodes', mat='materials', spring='springs', member='members', plate='plates', quad='quads',
           mesh='meshes', sec='sections')
DEL = dict(node='delete_node', aux='delete_auxnode', spring='delete_spring', member='delete_member')


def base():
    m = ops.new_model()
    m.add_material('base', 29000., 11200., .3, .001)
    for i, p in enumerate([(0, 0, 0), (5, 0, 0), (5, 4, 0), (0, 4, 0)]):
        m.add_node('b%d' % i, *map(float, p))
    return m


def add(m, kind, name, k):
    """k: payload that identifies the object"""
    if kind == 'node':
        return m.add_node(name, 100. + k, 1., 2.)
    if kind == 'aux':
        return m.add_auxnode(name, 100. + k, 1., 2.)
    if kind == 'mat':
        return m.add_material(name, 100. + k, 50., .2, 1.)
    if kind == 'spring':
        return m.add_spring(name, 'b0', 'b1', 100. + k)
    if kind == 'member':
        return m.add_member(name, 'b0', 'b2', 'base', 1., 1., 1., 100. + k)
    if kind == 'plate':
        return m.add_plate(name, 'b0', 'b1', 'b2', 'b3', 100. + k, 'base')
    if kind == 'quad':
        return m.add_quad(name, 'b0', 'b1', 'b2', 'b3', 100. + k, 'base')
    if kind == 'sec':
        from PyNite.Section import Section
        return m.add_section(name, Section(m, name, 100. + k, 1., 2., 3., 'base'))
    f = [m.add_rectangle_mesh, m.add_annulus_mesh, m.add_frustrum_mesh, m.add_cylinder_mesh][k % 4]
    a = [(5., 10., 10.), (5., 10., 5.), (5., 10., 5., 10.), (5., 10., 10.)][k % 4]
    return f(name, *a, 100. + k, 'base')


def payload(kind, o):
    return {'node': lambda: o.X, 'aux': lambda: o.X, 'mat': lambda: o.E, 'spring': lambda: o.ks, 'member': lambda: o.A, 'plate': lambda: o.t,
            'quad': lambda: o.t, 'mesh': lambda: o.thickness, 'sec': lambda: o.A}[kind]() - 100.


def cases(tier):
    d = 5 if tier == 'quick' else 6
    out = []
    for k in PREFIX:
        for f in range(6):
            out.append([k, d if k != 'mesh' else d - 1, f])
    out += [['cross', a, b] for a in PREFIX for b in PREFIX if a != b]
    out += [['section', i, 0] for i in range(4)]
    sets = [(), (1,), (2, 3), (9, 10, 11), (0, 1, 2, 26, 27), (99, 100, 101), (5, 50, 51, 120)]
    out += [['many', k, list(t)] for k in PREFIX if k != 'sec' for t in sets]
    return out


def run(case, rec):
    if case[0] == 'cross':
        return cross(case, rec)
    if case[0] == 'many':
        return many(case, rec)
    if case[0] == 'section':
        return section(case, rec)
    kind, depth, first = case
    names = [PREFIX[kind] + str(i) for i in range(4)]
    acts = [('auto', None)] + [('add', x) for x in names] + [('auto', '')] + [('del', x) for x in names]
    if kind == 'sec':
        acts = [a for a in acts if a[0] != 'auto']
    if first >= len(acts):
        return
    for seq in itertools.product(range(len(acts)), repeat=depth - 1):
        walk(rec, kind, [acts[first]] + [acts[i] for i in seq])


def many(case, rec):
    """more than a hundred objects named automatically next to given names"""
    _, kind, taken = case
    m = base()
    reg = getattr(m, REG[kind])
    have = dict(reg)
    rec.history = [case]
    key = 'many:%s:%s' % (kind, ','.join(map(str, taken)))
    for i in range(135 if kind != 'mesh' else 30):
        before = set(reg)
        name = PREFIX[kind] + str(taken[i]) if i < len(taken) else (None, '')[i % 2]
        if name and name in before:
            continue
        add(m, kind, name, i)
        rec.step()
        reg = getattr(m, REG[kind])
        new = [k for k in reg if k not in before]
        if not rec.true(key, len(new) == 1 and all(reg[k] is have[k] for k in have), 'addition %d of a %s: new names %s' % (i, kind, new)):
            return
        have[new[0]] = reg[new[0]]
        rec.true(key + ':name', (not name or new[0] == name) and getattr(reg[new[0]], 'name', new[0]) == new[0] and payload(kind, reg[new[0]]) == i,
                 'object %d of kind %s is found as %r' % (i, kind, new[0]))
    rec.state((kind, tuple(taken)))
    rec.trace()


def walk(rec, kind, seq):
    m = base()
    reg = lambda: getattr(m, REG[kind])
    want = {k: o for k, o in reg().items()}
    given = {}
    for i, (a, name) in enumerate(seq):
        if a == 'del' and name not in given:
            return            # not a transition: the sequence without it is explored too
        rec.history = [kind] + [list(x) for x in seq[:i+1]]
        key = '%s:%s' % (kind, '.'.join('%s-%s' % x for x in seq[:i+1]))
        if a == 'del':
            given.pop(name)
            if kind in DEL:
                getattr(m, DEL[kind])(name)
            else:
                reg().pop(name)
        elif a == 'add' and name in given:
            before = dict(reg())
            m.solution = 'Linear'
            try:
                add(m, kind, name, i)
                rec.fail(key, 'adding %s %r twice was not refused' % (kind, name))
                return
            except Exception:
                pass
            rec.true(key + ':changed', dict(reg()) == before and all(reg()[k] is before[k] for k in before),
                     'refused addition of %s %r changed the registry' % (kind, name))
            rec.true(key + ':flag', m.solution == 'Linear', 'refused addition of %s %r marked the model as unsolved' % (kind, name))
        else:
            before = set(reg())
            got = add(m, kind, name, i)
            new = [k for k in reg() if k not in before]
            if not rec.true(key + ':one', len(new) == 1 and set(reg()) >= before, '%s %s %r: new names %s, lost %s' % (
                    a, kind, name, new, before - set(reg()))):
                return
            new = new[0]
            if a == 'add':
                rec.true(key + ':explicit', new == name, '%s added as %r is registered as %r' % (kind, name, new))
            if kind not in ('mat', 'sec'):
                rec.true(key + ':returned', got == new, 'adding %s returned %r, registered as %r' % (kind, got, new))
            given[new] = i
        rec.step()
        rec.state((kind, tuple(sorted(given.items()))))
        r = reg()
        rec.true(key + ':keys', set(r) == set(want) | set(given), 'registry of %s holds %s, expected %s' % (kind, sorted(r), sorted(set(want) | set(given))))
        for k, v in given.items():
            o = r.get(k)
            if o is None:
                continue
            rec.true(key + ':object:' + k, abs(payload(kind, o) - v) < 1e-9, '%s %r is not the object that was added under it' % (kind, k))
            if kind != 'mesh':
                rec.true(key + ':ownname:' + k, o.name == k, '%s registered as %r calls itself %r' % (kind, k, o.name))
    rec.trace()
    rec.outcome((kind, tuple(sorted(given))))


def cross(case, rec):
    """kinds have separate name spaces"""
    _, a, b = case
    m = base()
    rec.history = [case]
    add(m, a, 'X', 1)
    n0 = len(getattr(m, REG[a]))
    add(m, b, 'X', 2)
    rec.step(2)
    rec.true('cross:%s:%s' % (a, b), payload(a, getattr(m, REG[a])['X']) == 1 and payload(b, getattr(m, REG[b])['X']) == 2 and
             len(getattr(m, REG[a])) == n0, '%s and %s both named X interfere' % (a, b))
    rec.trace()


def section(case, rec):
    """a member that refers to a section by its registered name has that section's properties, whatever the section calls itself"""
    from PyNite.Section import Section
    _, i, _ = case
    own = ['W', 'other', '', 'Y'][i]
    m = base()
    m.add_section('W', Section(m, own, 9., 70., 150., 20., 'base'))
    m.add_section('Y', Section(m, 'Y', 1., 2., 3., 4., 'base'))
    m.add_member('M', 'b0', 'b1', 'base', section_name='W')
    m.add_node('mid', 2., 0., 0.)
    m.add_member('R', 'b3', 'b2', 'base', 70., 150., 20., 9.)
    m.add_node('mid2', 2., 4., 0.)
    for n in ('b0', 'b3'):
        m.def_support(n, *[True]*6)
    for n in ('b1', 'b2'):
        for d in ('FX', 'FY', 'FZ', 'MX'):
            m.add_node_load(n, d, 3.)
    m.analyze()
    rec.step()
    for a in ops.DOFS:
        rec.close('section:%d:%s' % (i, a), getattr(m.nodes['b1'], a)['Combo 1'], getattr(m.nodes['b2'], a)['Combo 1'], 1e-9, 1e-6,
                  'end %s of a member using a section registered as W (own name %r)' % (a, own))
    rec.trace()
