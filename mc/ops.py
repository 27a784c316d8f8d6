"""The operation language shared by the explored histories.

A history is a JSON list of operations.  `apply_real` performs one operation on a real
PyNite FEModel3D through its public interface; `ref.Ref.apply` performs the same operation
on the reference model.  Every replay file is such a history.
"""
import contextlib
import io
import os
import sys
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
REPO = os.environ.get('PYNITE_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

warnings.filterwarnings('ignore')

import numpy as np  # noqa: E402

np.seterr(all='ignore')

from PyNite import FEModel3D  # noqa: E402

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
RXN = ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def new_model():
    return FEModel3D()


def apply_real(m, op):
    k, a = op[0], op[1:]
    if k == 'node':
        return m.add_node(*a)
    if k == 'aux':
        return m.add_auxnode(*a)
    if k == 'mat':
        return m.add_material(*a)
    if k == 'sec':
        from PyNite.Section import Section
        name, A, Iy, Iz, J = a
        return m.add_section(name, Section(m, name, A, Iy, Iz, J, a_mat(m)))
    if k == 'member':
        name, i, j, mat, Iy, Iz, J, A = a[:8]
        kw = a[8] if len(a) > 8 else {}
        return m.add_member(name, i, j, mat, Iy, Iz, J, A, **kw)
    if k == 'spring':
        name, i, j, ks = a[:4]
        kw = a[4] if len(a) > 4 else {}
        return m.add_spring(name, i, j, ks, **kw)
    if k in ('quad', 'plate'):
        f = m.add_quad if k == 'quad' else m.add_plate
        kw = a[7] if len(a) > 7 else {}
        return f(*a[:7], **kw)
    if k == 'support':
        return m.def_support(a[0], *a[1])
    if k == 'sspring':
        return m.def_support_spring(*a)
    if k == 'disp':
        return m.def_node_disp(*a)
    if k == 'release':
        return m.def_releases(a[0], *a[1])
    if k == 'combo':
        return m.add_load_combo(*a)
    if k == 'nload':
        return m.add_node_load(*a)
    if k == 'ptload':
        return m.add_member_pt_load(*a)
    if k == 'dload':
        return m.add_member_dist_load(*a)
    if k == 'selfw':
        return m.add_member_self_weight(*a)
    if k == 'qpress':
        return m.add_quad_surface_pressure(*a)
    if k == 'ppress':
        return m.add_plate_surface_pressure(*a)
    if k == 'del_loads':
        return m.delete_loads()
    if k == 'del_node':
        return m.delete_node(*a)
    if k == 'del_aux':
        return m.delete_auxnode(*a)
    if k == 'del_member':
        return m.delete_member(*a)
    if k == 'del_spring':
        return m.delete_spring(*a)
    if k == 'merge':
        return m.merge_duplicate_nodes(*a)
    if k == 'rename':
        return m.rename()
    if k == 'setmember':
        setattr(m.members[a[0]], a[1], a[2])
        return None
    if k == 'set':
        setattr({'node': m.nodes, 'aux': m.aux_nodes, 'member': m.members, 'spring': m.springs, 'quad': m.quads, 'plate': m.plates}[a[0]][a[1]], a[2], a[3])
        return None
    if k == 'analyze':
        with quiet():
            return m.analyze(**(a[0] if a else {}))
    if k == 'analyze_linear':
        with quiet():
            return m.analyze_linear(**(a[0] if a else {}))
    if k == 'pdelta':
        with quiet():
            return m.analyze_PDelta(**(a[0] if a else {}))
    raise ValueError('unknown op %r' % (op,))


def a_mat(m):
    return next(iter(m.materials), None)


def build(ops):
    m = new_model()
    for op in ops:
        apply_real(m, op)
    return m


def disp(m, combo):
    """{node: 6-vector} of displacements for a combo"""
    return {n: np.array([getattr(nd, d)[combo] for d in DOFS], float) for n, nd in m.nodes.items()}


def reac(m, combo):
    return {n: np.array([getattr(nd, d)[combo] for d in RXN], float) for n, nd in m.nodes.items()}
