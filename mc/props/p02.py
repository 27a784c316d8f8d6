"""Displacements and reactions of every load combination equal the reference solution."""
from .. import frames, ops, ref
from ..common import each_in_own_combo, lockstep, cmp_disp, cmp_reac

ID = 'P02'
TITLE = 'Displacements and reactions equal the exact linear solution'
RULE = ('every structure x every set of at most d deviations (support flag, release, node on member, support spring, '
        'enforced displacement, extra spring/member, reversed/re-oriented member); every load of the structure in its own '
        'combination; non-trivial = the reference solution of a combination is non-zero')
ASSUMPTIONS = ['ill-conditioned variants (condition number above 1e12 after diagonal scaling) are left to P22']

QUICK = {'portal': 1, 'space': 1, 'cont': 1, 'braced': 1, 'springs': 1, 'settle': 1, 'quad-XY': 0, 'quad-YZ': 0, 'quad-XZ': 0,
         'quad-SK': 1, 'plate-XY': 1, 'plate-YZ': 0, 'plate-XZ': 0, 'plate-SK': 0, 'mixed': 0}
THOROUGH = {'portal': 2, 'space': 2, 'cont': 2, 'braced': 1, 'springs': 2, 'settle': 1, 'quad-XY': 1, 'quad-YZ': 1, 'quad-XZ': 1,
            'quad-SK': 1, 'plate-XY': 1, 'plate-YZ': 1, 'plate-XZ': 1, 'plate-SK': 1, 'mixed': 1}


def cases(tier):
    d = QUICK if tier == 'quick' else THOROUGH
    out = [[s, v] for s in d for v in frames.variants(s, d[s])]
    return sorted(out, key=lambda c: len(c[1]))


def run(case, rec):
    name, labels = case
    h, loads = frames.history(name, labels)
    lops, names = each_in_own_combo(loads)
    full = h + lops
    r = ref.Ref()
    for op in full:
        r.apply(op)
    try:
        r.solve(names[0])
    except ref.Unstable:
        rec.outcome('unstable')
        return
    m, r = lockstep(rec, full)
    ops.apply_real(m, ['analyze', {}])
    rec.step()
    key = '%s:%s' % (name, '+'.join(labels))
    for c in names:
        sol = r.solve(c)
        cmp_disp(rec, key + ':' + c, m, sol, c)
        cmp_reac(rec, key + ':' + c, m, sol, r, c)
        rec.trace()
        rec.outcome((key, c, bool(sum(abs(d).max() for d in sol.D.values()))))
