"""The statics check reports the true sums of loads and reactions."""
import contextlib
import io
import itertools
import re

import numpy as np

from .. import frames, ops, ref
from ..common import each_in_own_combo, lockstep
from .p01 import applied
from .p06 import results
from .p25 import oneway

ID = 'P26'
TITLE = 'The statics check reports the true sums of loads and reactions'
RULE = ('every structure x every set of at most d deviations x every load alone and together x entry point and solver; every assignment of tags to '
        'three combinations x every tag query; every translation of the origin; every printed number is compared')
ASSUMPTIONS = ['numbers are printed with three significant digits', 'loads carried by a member that dropped out are not claimed',
               'moment balance is not claimed for shells (weak drilling ground spring) nor for displacements enforced away from supports']
HEAD = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
HOW = (('analyze', {}), ('analyze', dict(sparse=False)), ('analyze_linear', {}), ('analyze_linear', dict(sparse=False, check_stability=False)))
TAGS = [None, [], ['a'], ['b', 'a'], ['c']]
QUERIES = [None, [], ['a'], ['b'], ['c', 'b'], ['zz']]
SHIFT = [(0, 0, 0), (50., -20., 30.), (0, 0, -7.), (1000., 0, 0)]


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in frames.ALL:
        for i, v in enumerate(frames.variants(s, 1 if th or s in ('portal', 'cont', 'springs') else 0)):
            for g in range(4) if not v else (i % 4,):
                out.append(['table', s, v, g, i % 4])
    for g in range(4):
        out.append(['oneway', g])
    for t in itertools.product(range(len(TAGS)), repeat=3):
        out.append(['tags', list(t)])
    return out


def table(text):
    """{combination: [12 printed numbers]} of the printed table, in order"""
    rows = [[c.strip() for c in line.strip().strip('|').split('|')] for line in text.splitlines() if line.strip().startswith('|')]
    rows = [r for r in rows if len(r) == 13]
    return rows[0] if rows else None, [(r[0], r[1:]) for r in rows[1:]]


def analyze(m, f, o):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        getattr(m, f)(**o)
    return buf.getvalue()


def loads_of(r, c):
    """applied loads as (point, force, moment); surface pressures integrated over the element"""
    al = [x for x in applied(r, c)]
    cf = r.combos[c][0]
    n = sum(1 for s in r.shells.values() if sum(cf[k]*v for v, k in s['press'] if k in cf))
    al = al[:len(al) - n]
    g = (-1/3**.5, 1/3**.5)
    for s in r.shells.values():
        p = sum(cf[k]*v for v, k in s['press'] if k in cf)
        if p:
            P = np.array([r.nodes[k]['p'] for k in s['n']])
            for a, b in itertools.product(g, g):
                N = np.array([(1 - a)*(1 - b), (1 + a)*(1 - b), (1 + a)*(1 + b), (1 - a)*(1 + b)])/4
                da = np.array([-(1 - b), 1 - b, 1 + b, -(1 + b)])/4
                db = np.array([-(1 - a), -(1 + a), 1 + a, 1 - a])/4
                al.append((N @ P, p*np.cross(da @ P, db @ P), np.zeros(3)))
    return al


def sums(r, m, c):
    al = loads_of(r, c)
    F = sum([f for _, f, _ in al], np.zeros(3))
    M = sum([np.cross(p, f) + mo for p, f, mo in al], np.zeros(3))
    rx = ops.reac(m, c)
    RF = sum([v[:3] for v in rx.values()], np.zeros(3))
    RM = sum([np.cross(r.nodes[n]['p'], v[:3]) + v[3:] for n, v in rx.items()], np.zeros(3))
    fs = sum([np.abs(f).max() for _, f, _ in al]) + sum(np.abs(v[:3]).max() for v in rx.values()) + 1e-9
    fs += .1*(sum([np.abs(mo).max() for _, _, mo in al]) + sum(np.abs(v[3:]).max() for v in rx.values()))
    reach = max(np.abs(nd['p']).max() for nd in r.nodes.values()) + 1
    ms = reach*fs + sum([np.abs(mo).max() for _, _, mo in al]) + sum(np.abs(v[3:]).max() for v in rx.values())
    return F, RF, M, RM, fs, ms


def shown(rec, key, text, m, r, want, balance=True, member_loads=True):
    """the printed table lists exactly the combinations `want` with the true sums"""
    head, rows = table(text)
    if not rec.true(key + ':head', head is not None and head == HEAD, 'no statics table with the expected columns was printed: %s' % head):
        return
    rec.true(key + ':rows', [n for n, _ in rows] == list(want), 'the table lists %s, analysed were %s' % ([n for n, _ in rows], list(want)))
    held = any(nd['enf'][k] is not None and not nd['sup'][k] for nd in r.nodes.values() for k in range(6))
    for c, cells in rows:
        F, RF, M, RM, fs, ms = sums(r, m, c)
        for k in range(3):
            for j, (v, s, nm) in enumerate(((F[k], fs, 'force'), (RF[k], fs, 'reaction'), (M[k], ms, 'moment'), (RM[k], ms, 'moment reaction'))):
                col = 1 + 2*k + j if j < 2 else 7 + 2*k + j - 2
                got = float(cells[col - 1])
                rec.ev()
                if j in (0, 2) and not member_loads:
                    continue
                if not abs(got - v) <= .0051*abs(v) + 1e-6*s:
                    rec.fail('%s:%s:%s' % (key, c, HEAD[col]), 'combo %s column %s shows %s, the true sum is %.9g' % (c, HEAD[col], cells[col - 1], v))
            if balance and not held:
                a, b = float(cells[2*k]), float(cells[2*k + 1])
                rec.true('%s:%s:bal%d' % (key, c, k), abs(a + b) <= .0051*(abs(a) + abs(b)) + 2e-6*fs, 'combo %s: printed sums %s and %s do not match' % (c, a, b))
                if not r.shells:
                    a, b = float(cells[6 + 2*k]), float(cells[7 + 2*k])
                    rec.true('%s:%s:mbal%d' % (key, c, k), abs(a + b) <= .0051*(abs(a) + abs(b)) + 2e-6*ms, 'combo %s: printed moment sums %s and %s do not match' % (c, a, b))
        rec.trace()
        rec.outcome((key, c))


def moved(h, t):
    return [op[:2] + [float(x + d) for x, d in zip(op[2:], t)] if op[0] in ('node', 'aux') else op for op in h]


def run(case, rec):
    if case[0] == 'tags':
        return tags(case, rec)
    if case[0] == 'oneway':
        st = oneway()
        h, loads, g, v, t, s = st['base'], st['loads'], case[1], [], case[1], 'oneway'
    else:
        _, s, v, g, t = case
        h, loads = frames.history(s, v)
    h = moved(h, SHIFT[t])
    lops, names = each_in_own_combo(loads)
    lops += [['combo', 'ALL', {'L%d' % i: (1.0, -1.4, .7)[i % 3] for i in range(len(loads))}], ['combo', 'none', {}]]
    names = names + ['ALL', 'none']
    full = h + lops
    if s != 'oneway':
        r = ref.Ref()
        for op in full:
            r.apply(op)
        try:
            r.solve('ALL')
        except ref.Unstable:
            return
    m, r = lockstep(rec, full)
    f, o = HOW[g % 2 if s == 'oneway' else g]
    key = '%s:%s:%d' % (s, '+'.join(v), g)
    analyze(m, f, o)
    base = {c: results(m, c) for c in names}
    text = analyze(m, f, dict(o, check_statics=True))
    rec.step(2)
    shown(rec, key, text, m, r, names)
    for c in names:
        for (lab, a), (_, b) in zip(base[c], results(m, c)):
            rec.true('%s:%s:%s' % (key, c, lab), np.array_equal(a, b), 'the statics check changed %s of %s from %s to %s' % (lab, c, a, b))
    rec.true(key + ':flag', m.solution is not None, 'no solution flagged')


def tags(case, rec):
    """which combinations are listed; combinations without tags included"""
    T = [TAGS[i] for i in case[1]]
    h, loads = frames.history('cont', [])
    names = ('P', 'Q', 'R')
    h = h + [list(l) + ['K%d' % (i % 3)] for i, l in enumerate(loads[:5])] + [
        ['combo', n, f] + ([t] if t is not None else []) for n, f, t in zip(names, ({'K0': 1.0}, {'K1': -1.0, 'K2': .5}, {}), T)]
    m, r = lockstep(rec, h)
    for i, q in enumerate(QUERIES):
        f, o = HOW[(sum(case[1]) + i) % 4]
        want = [n for n, t in zip(names, T) if q is None or (t and set(t) & set(q))]
        text = analyze(m, f, dict(o, check_statics=True, **({} if q is None else dict(combo_tags=q))))
        rec.step()
        rec.state((T, q, f))
        shown(rec, 'tags:%s:%d' % (''.join(map(str, case[1])), i), text, m, r, want)
