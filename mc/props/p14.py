"""rename()."""
import itertools

import numpy as np

from .. import frames, ops
from .p06 import results

ID = 'P14'
TITLE = 'Renaming keeps every object and changes no result'
RULE = ('structures with nodes, members, springs, quads and plates x every permutation of the names of each kind over the names renaming will '
        'give (and partial overlaps with them) x renamed before / after an analysis, twice, or between edits; chains of over a hundred springs; generated meshes')
ASSUMPTIONS = []
REG = ('nodes', 'springs', 'members', 'plates', 'quads')
PRE = {'nodes': 'N', 'springs': 'S', 'members': 'M', 'plates': 'P', 'quads': 'Q'}
NODEPOS = {'node': [1], 'member': [2, 3], 'spring': [2, 3], 'quad': [2, 3, 4, 5], 'plate': [2, 3, 4, 5], 'support': [1], 'sspring': [1], 'disp': [1],
           'nload': [1], 'del_node': [1]}
ELPOS = {'member': 'members', 'release': 'members', 'ptload': 'members', 'dload': 'members', 'del_member': 'members', 'setmember': 'members',
         'spring': 'springs', 'del_spring': 'springs', 'quad': 'quads', 'qpress': 'quads', 'plate': 'plates', 'ppress': 'plates'}


def relabel(h, maps):
    out = []
    for op in h:
        op = list(op)
        for p in NODEPOS.get(op[0], []):
            op[p] = maps.get('nodes', {}).get(op[p], op[p])
        k = ELPOS.get(op[0])
        if k:
            op[1] = maps.get(k, {}).get(op[1], op[1])
        out.append(op)
    return out


def start(s):
    st = frames.ALL[s]()
    return st['base'] + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(st['loads'])] + [
        ['combo', 'A', {'K0': 1.0, 'K1': .6}], ['combo', 'B', {'K1': -1.0}]]


def names(h):
    d = {k: [] for k in REG}
    for op in h:
        k = {'node': 'nodes', 'member': 'members', 'spring': 'springs', 'quad': 'quads', 'plate': 'plates'}.get(op[0])
        if k:
            d[k].append(op[1])
    return d


def patterns(k, th):
    """name assignments for k objects: indices into the target names, -1 = a name renaming never gives"""
    full = [p for p in itertools.permutations(range(k))] if k <= (5 if th else 4) else []
    if k > 4 and not th or k > 5:
        full = [tuple((i + d) % k for i in range(k)) for d in range(k)] + [tuple(reversed(range(k)))]
        full += [tuple(j if x == i else i if x == j else x for x in range(k)) for i, j in itertools.combinations(range(k), 2)]
    gaps = [tuple(x if m >> x & 1 else -1 for x in range(k)) for m in (range(1 << k) if k <= 4 else [0, 1, 2, (1 << k) - 2, 1 << k >> 1])]
    shift = [tuple(x + d for x in range(k)) for d in (1, 2)] + [(-1,) + tuple(range(k - 1)), tuple(range(1, k)) + (-1,)]
    return list(dict.fromkeys(full + gaps + shift))


MODES = ('before', 'after', 'twice', 'edit')


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in ('portal', 'springs', 'mixed', 'settle', 'space', 'plate-XY', 'cont'):
        d = names(start(s))
        for k in REG:
            if not d[k] or not th and s in ('settle', 'space', 'cont') and k != 'members':
                continue
            for i, p in enumerate(patterns(len(d[k]), th)):
                for mode in MODES if th or s == 'portal' else MODES[i % 4:i % 4 + 1]:
                    out.append([s, {k: list(p)}, mode])
        if th and s in ('portal', 'plate-XY', 'springs'):
            k1, k2 = {'portal': ('nodes', 'members'), 'plate-XY': ('nodes', 'plates'), 'springs': ('nodes', 'springs')}[s]
            for p in patterns(len(d[k1]), False):
                for q in patterns(len(d[k2]), False):
                    out.append([s, {k1: list(p), k2: list(q)}, 'after'])
    for n in (11, 101, 140) if th else (11, 105):
        for perm in ('same', 'reversed', 'shift', 'odd', 'stride', 'half'):
            out.append(['big', n, perm])
    for k in ('Quad', 'Rect'):
        for a, b in itertools.product((1, 2, 3, 7), (1, 4, 101)):
            out.append(['mesh', k, a, b])
    return out


def snapshot(m):
    return {k: [(id(x), [getattr(x, c + '_node').name for c in 'ijmn' if getattr(x, c + '_node', None) is not None]) for x in getattr(m, k).values()] for k in REG}


def consistent(rec, key, m):
    for k in REG:
        want = ['%s%d' % (PRE[k], i + 1) for i in range(len(getattr(m, k)))]
        rec.true(key + ':names', list(getattr(m, k)) == want, '%s are named %s' % (k, list(getattr(m, k))))
        rec.true(key + ':own', all(x.name == n for n, x in getattr(m, k).items()), '%s registry and names differ' % k)
        if k != 'nodes':
            for x in getattr(m, k).values():
                for c in 'ijmn':
                    y = getattr(x, c + '_node', None)
                    rec.true(key + ':attached', y is None or m.nodes.get(y.name) is y, '%s %s is attached to a node that is not in the model' % (k, x.name))


def rename(rec, key, m):
    before = {k: list(getattr(m, k).values()) for k in REG}
    attrs = {id(x): {a: id(v) for a, v in vars(x).items() if a != 'name'} for k in REG for x in before[k]}
    ops.apply_real(m, ['rename'])
    rec.step()
    for k in REG:
        after = list(getattr(m, k).values())
        rec.true(key + ':kept', len(after) == len(before[k]) and {id(x) for x in after} == {id(x) for x in before[k]},
                 '%d of %d %s are left after renaming' % (len(after), len(before[k]), k))
        rec.true(key + ':content', all({a: id(v) for a, v in vars(x).items() if a != 'name'} == attrs.get(id(x)) for x in after), 'renaming changed the %s' % k)
    consistent(rec, key, m)


def flat(m, c, order):
    r = results(m, c)
    pos = {}
    for g, k in (('disp', 'nodes'), ('reac', 'nodes'), ('cut', 'members'), ('defl', 'members'), ('spring', 'springs'), ('quad', 'quads'), ('plate', 'plates')):
        for n, x in getattr(m, k).items():
            if id(x) in order:
                pos[g + ':' + n] = '%s:%s' % (g, order[id(x)])
    return {pos[l]: v for l, v in r if l in pos}


BASE = {}


def base(s):
    if s not in BASE:
        m = ops.build(start(s))
        ops.apply_real(m, ['analyze', {}])
        BASE[s] = {c: flat(m, c, {id(x): n for k in REG for n, x in getattr(m, k).items()}) for c in ('A', 'B')}
    return BASE[s]


def big(case, rec):
    """chains of many springs, renamed from every arrangement of the names renaming gives"""
    _, n, perm = case
    f = {'same': lambda i: i + 1, 'reversed': lambda i: n - i, 'shift': lambda i: i + 2, 'odd': lambda i: 2*i + 1,
         'stride': lambda i: (i*13) % n + 1, 'half': lambda i: i + 1 if i < n//2 else 10*n + i}[perm]
    m = ops.new_model()
    for i in range(n):
        m.add_node('N%d' % f(i), float(i), i % 3, 0.)
    for i in range(n - 1):
        m.add_spring('S%d' % f(i), 'N%d' % f(i), 'N%d' % f(i + 1), 10. + i)
    rec.history = [case]
    nodes, springs = list(m.nodes.values()), list(m.springs.values())
    m.rename()
    rec.step()
    rec.state((n, perm))
    key = 'big:%d:%s' % (n, perm)
    rec.true(key + ':nodes', list(m.nodes) == ['N%d' % (i + 1) for i in range(n)] and all(a is b for a, b in zip(m.nodes.values(), nodes)), 'nodes after renaming: %s' % list(m.nodes))
    rec.true(key + ':springs', list(m.springs) == ['S%d' % (i + 1) for i in range(n - 1)] and all(a is b for a, b in zip(m.springs.values(), springs)), 'springs after renaming: %s' % list(m.springs))
    rec.true(key + ':names', all(k == x.name for r in (m.nodes, m.springs) for k, x in r.items()), 'objects carry other names than they are found by')
    rec.true(key + ':ends', all(e.i_node is nodes[i] and e.j_node is nodes[i + 1] and e.ks == 10. + i for i, e in enumerate(m.springs.values())), 'springs connect other nodes')
    rec.trace()


def run(case, rec):
    if case[0] == 'big':
        return big(case, rec)
    if case[0] == 'mesh':
        return mesh(case, rec)
    s, pat, mode = case
    h0 = start(s)
    d = names(h0)
    maps = {}
    for k in REG:
        p = pat.get(k, list(range(len(d[k]))))
        maps[k] = {n: 'x%s' % n if i < 0 else PRE[k] + str(i + 1) for n, i in zip(d[k], p)}
    h = relabel(h0, maps)
    rec.history = h
    m = ops.build(h)
    rec.step(len(h))
    order = {id(getattr(m, k)[v]): n for k in REG for n, v in maps[k].items()}
    key = '%s:%s:%s' % (s, '+'.join('%s=%s' % (k, '.'.join(map(str, p))) for k, p in pat.items()), mode)
    rec.state(key)

    def check(what):
        for c, want in base(s).items():
            got = flat(m, c, order)
            big = {}
            for l, v in want.items():
                big[l.split(':')[0]] = max(big.get(l.split(':')[0], 1e-3), np.abs(v).max())
            for l, v in want.items():
                rec.close('%s:%s:%s' % (key, what, l), got.get(l, np.nan), v, 1e-6, big[l.split(':')[0]], 'combo %s %s %s' % (c, l, what))
            rec.outcome((key, c, what))
    if mode in ('after', 'twice'):
        ops.apply_real(m, ['analyze', {}])
        rename(rec, key, m)
        check('right after renaming')
        if mode == 'twice':
            rename(rec, key, m)
            check('after renaming twice')
    else:
        rename(rec, key, m)
    if mode == 'edit':
        # names are usable for further modelling: add a node and a member by automatic name, take them out again
        had = set(m.nodes) | set(m.members)
        n = m.add_node(None, 31.0, 17.0, 5.0)
        e = m.add_member(None, n, 'N1', next(iter(m.materials)), 1., 1., 1., 1.)
        rec.true(key + ':auto', n not in had and e not in had and n in m.nodes and e in m.members, 'automatic names after renaming: %r, %r' % (n, e))
        m.delete_member(e)
        m.delete_node(n)
        rec.step(4)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    check('analyzed after renaming')
    consistent(rec, key, m)
    rec.trace()


def mesh(case, rec):
    _, k, a, b = case
    m = ops.new_model()
    m.add_material('C', 3600., 1500., .2, .0001)
    rec.history = [case]
    key = 'mesh:%s:%d:%d' % (k, a, b)
    p = 'Q' if k == 'Quad' else 'R'
    m.add_node('N2', 50, 50, 50)
    m.add_rectangle_mesh('A', 2., 4., 4., .5, 'C', start_node='N%d' % (a + 20), start_element=p + '%d' % (a + 10), element_type=k)
    m.meshes['A'].generate()
    m.add_rectangle_mesh('B', 2., 4., 4., .5, 'C', origin=[10, 0, 0], start_node='N%d' % (b + 60), start_element=p + '%d' % (b + 40), element_type=k)
    m.meshes['B'].generate()
    was = {n: ([id(x) for x in w.nodes.values()], [id(x) for x in w.elements.values()]) for n, w in m.meshes.items()}
    rename(rec, key, m)
    for n, w in m.meshes.items():
        rec.true(key + ':mesh', was[n] == ([id(x) for x in w.nodes.values()], [id(x) for x in w.elements.values()]), 'mesh %s lost nodes or elements' % n)
        rec.true(key + ':registry', all(m.nodes.get(x) is y and y.name == x for x, y in w.nodes.items()), 'mesh %s nodes are registered under old names' % n)
        reg = m.quads if k == 'Quad' else m.plates
        rec.true(key + ':elements', all(reg.get(x) is y and y.name == x for x, y in w.elements.items()), 'mesh %s elements are registered under old names' % n)
    rec.state(key)
    rec.trace()
