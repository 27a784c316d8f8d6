"""Equilibrium: applied loads, reactions and element end forces balance, globally and at every node."""
import numpy as np

from .. import frames, ops, ref
from ..common import each_in_own_combo, lockstep

ID = 'P01'
TITLE = 'Reactions and element end forces balance the applied loads'
RULE = ('every structure x every set of at most d deviations and x every node of it fully fixed x solver entry point x every load alone and all loads together; '
        'six global equations, six equations per node, six per member')
ASSUMPTIONS = ['global moment equations are not claimed for plate/quad models, whose drilling stiffness is a weak ground spring',
               'enforced displacements at unsupported freedoms report no reaction and are excluded']
QUICK = {'portal': 1, 'space': 0, 'cont': 1, 'braced': 0, 'springs': 1, 'settle': 1, 'quad-XY': 0, 'quad-YZ': 0, 'quad-XZ': 0,
         'quad-SK': 1, 'plate-XY': 1, 'plate-YZ': 0, 'plate-XZ': 0, 'plate-SK': 0, 'mixed': 0}
THOROUGH = {'portal': 2, 'space': 2, 'cont': 2, 'braced': 1, 'springs': 2, 'settle': 2, 'quad-XY': 1, 'quad-YZ': 1, 'quad-XZ': 1,
            'quad-SK': 1, 'plate-XY': 1, 'plate-YZ': 1, 'plate-XZ': 1, 'plate-SK': 1, 'mixed': 1}
HOW = ('analyze', 'dense', 'linear', 'statics')


def cases(tier):
    d = QUICK if tier == 'quick' else THOROUGH
    out = []
    for s in d:
        for i, v in enumerate(frames.variants(s, d[s])):
            hows = HOW if len(v) < (1 if tier == 'quick' else 2) else (HOW[i % 4],)
            out += [[s, v, w] for w in hows]
    out.sort(key=lambda c: len(c[1]))
    for s in frames.ALL:
        r = ref.Ref()
        for op in frames.history(s, [])[0]:
            r.apply(op)
        for i, n in enumerate(r.nodes):
            for w in HOW if tier != 'quick' else (HOW[i % 4],):
                out.append([s, ['fix', n], w])
    return out


def solve(m, how):
    if how == 'linear':
        ops.apply_real(m, ['analyze_linear', {}])
    else:
        ops.apply_real(m, ['analyze', {'sparse': how != 'dense', 'check_statics': how == 'statics'}])


def applied(r, combo):
    """[(point, force, moment)] of every applied load, from the definition of the loads alone"""
    cf = r.combos[combo][0]
    out = []
    for n, nd in r.nodes.items():
        for d, P, c in nd['loads']:
            if c in cf:
                v = np.zeros(6)
                v[ref.NL[d]] = cf[c]*P
                out.append((np.array(nd['p']), v[:3], v[3:]))
    for n, mm in r.members.items():
        pi, pj = np.array(r.nodes[mm['i']]['p']), np.array(r.nodes[mm['j']]['p'])
        R = ref.local_axes(pi, pj, r.aux[mm['aux']] if mm['aux'] else None)
        for d, P, x, c in mm['pt']:
            if c in cf:
                v = ref.local_vec(d, R)*P*cf[c]
                out.append((pi + R[0]*x, R.T @ v[:3], R.T @ v[3:]))
        for d, w1, w2, x1, x2, c in mm['dist']:
            if c in cf and x2 > x1:
                v = R.T @ ref.local_vec(d, R)[:3]*cf[c]
                W = (w1 + w2)/2*(x2 - x1)
                M1 = (x2 - x1)**2*(w1 + 2*w2)/6          # first moment about x1
                out.append((pi + R[0]*x1, v*W, np.cross(R[0], v)*M1))
    for (kind, n), s in r.shells.items():
        p = sum(cf[c]*v for v, c in s['press'] if c in cf)
        if p:
            P = [np.array(r.nodes[k]['p']) for k in s['n']]
            A = np.cross(P[2] - P[0], P[3] - P[1])/2
            out.append((sum(P)/4, p*A, np.zeros(3)))
    return out


def run(case, rec):
    name, labels, how = case
    if labels[:1] == ['fix']:
        h, loads = frames.history(name, [])
        h = h + [['support', labels[1], [True]*6]]
    else:
        h, loads = frames.history(name, labels)
    lops, names = each_in_own_combo(loads)
    lops.append(['combo', 'ALL', {'L%d' % i: (1.0, -1.4, .7)[i % 3] for i in range(len(loads))}])
    names = names + ['ALL']
    full = h + lops
    r = ref.Ref()
    for op in full:
        r.apply(op)
    try:
        r.solve(names[0])
    except ref.Unstable:
        rec.outcome('unstable')
        return
    m, r = lockstep(rec, full)
    solve(m, how)
    rec.step()
    key = '%s:%s:%s' % (name, '+'.join(labels), how)
    for c in names:
        balance(rec, key + ':' + c, m, r, c)
        rec.trace()


def balance(rec, key, m, r, c, tol=1e-6):
    al = applied(r, c)
    rx = ops.reac(m, c)
    F = sum([f for _, f, _ in al], np.zeros(3))
    M = sum([np.cross(p, f) + mo for p, f, mo in al], np.zeros(3))
    RF = sum([v[:3] for v in rx.values()], np.zeros(3))
    RM = sum([np.cross(r.nodes[n]['p'], v[:3]) + v[3:] for n, v in rx.items()], np.zeros(3))
    fs = max([np.abs(f).max() for _, f, _ in al] + [np.abs(v[:3]).max() for v in rx.values()] + [1e-9])
    fs = max([fs] + [np.abs(mo).max()/10 for _, _, mo in al])
    ms = max([np.abs(np.cross(p, f) + mo).max() for p, f, mo in al] + [np.abs(v[3:]).max() for v in rx.values()] + [fs])
    held = any(nd['enf'][k] is not None and not nd['sup'][k] for nd in r.nodes.values() for k in range(6))
    ok = held or rec.close(key + ':sumF', F + RF, np.zeros(3), tol, fs, 'sum of loads and reactions, forces, combo %s' % c)
    if not r.shells and not held:
        ok &= rec.close(key + ':sumM', M + RM, np.zeros(3), tol, ms, 'sum of loads and reactions, moments about the origin, combo %s' % c)
    # node equilibrium
    bal = {n: v.copy() for n, v in rx.items()}
    for n, nd in r.nodes.items():
        for d, P, cc in nd['loads']:
            if cc in r.combos[c][0]:
                bal[n][ref.NL[d]] += r.combos[c][0][cc]*P
    es = fs
    for name, mem in m.members.items():
        tot = np.zeros(6)
        for sub in mem.sub_members.values():
            f = np.asarray(sub.F(c), float).reshape(12)
            bal[sub.i_node.name] -= f[:6]
            bal[sub.j_node.name] -= f[6:]
            es = max(es, np.abs(f).max())
            for nn, v in ((sub.i_node.name, f[:6]), (sub.j_node.name, f[6:])):
                tot[:3] += v[:3]
                tot[3:] += v[3:] + np.cross(r.nodes[nn]['p'], v[:3])
        # the member as a whole: end forces of the physical member are those of its outermost parts
        f = np.asarray(mem.F(c), float).reshape(12)
        subs = list(mem.sub_members.values())
        want = np.concatenate([np.asarray(subs[0].F(c), float).reshape(12)[:6], np.asarray(subs[-1].F(c), float).reshape(12)[6:]])
        rec.close('%s:ends:%s' % (key, name), f, want, tol, es, 'end forces of member %s combo %s' % (name, c))
    for name, s in m.springs.items():
        f = np.asarray(s.F(c), float).reshape(12)
        bal[s.i_node.name] -= f[:6]
        bal[s.j_node.name] -= f[6:]
        es = max(es, np.abs(f).max())
    for d in (m.plates, m.quads):
        for s in d.values():
            f = np.asarray(s.F(c), float).reshape(24)
            for k, nn in enumerate((s.i_node, s.j_node, s.m_node, s.n_node)):
                bal[nn.name] -= f[6*k:6*k+6]
            es = max(es, np.abs(f).max())
    for n, v in bal.items():
        nd = r.nodes[n]
        free = [k for k in range(6) if not (nd['enf'][k] is not None and not nd['sup'][k])]
        ok &= rec.close('%s:node:%s' % (key, n), v[free], np.zeros(len(free)), tol, es,
                        'node %s: loads + reactions - element forces, combo %s' % (n, c))
    rec.outcome((key, bool(al)))
    return ok
