"""The scene of the older VTK renderer is the model, its loads and its results."""
import itertools

from .. import draw, frames, ops
from . import p31

ID = 'P32'
TITLE = 'The older VTK renderings show the model, its loads and its results'
RULE = p31.RULE + '; the function render_model and its former name with every setting and pair of settings on every structure, against the Renderer of the same module'
ASSUMPTIONS = p31.ASSUMPTIONS

OPTIONS = [('annotation_size', .4), ('deformed_shape', True), ('deformed_scale', 75.), ('render_loads', False), ('color_map', 'Mx'), ('color_map', 'Txy'),
           ('color_map', 'dz'), ('combo_name', 'A'), ('case', 'K1'), ('case', 'K0'), ('labels', False)]


def cases(tier):
    return p31.cases(tier) + [['function', s, w] for s in ('portal', 'space', 'cont', 'springs', 'quad-SK', 'plate-YZ', 'mixed') for w in (0, 1)]


def function(case, rec):
    """the functions draw what the renderer draws with the same settings"""
    h, loads = frames.history(case[1], [])
    m = ops.build(h + [list(l) + ['K%d' % (i % 2)] for i, l in enumerate(loads)] + [['combo', 'A', {'K0': 1., 'K1': -.6}], ['combo', 'Combo 1', {'K1': .5}]])
    ops.apply_real(m, ['analyze', {}])
    before = p31.result_state(m)
    for k in (0, 1, 2):
        for o in itertools.combinations(OPTIONS, k):
            if len({'combo' if a == 'case' else a for a, _ in o}) < k or 'case' in dict(o) and 'color_map' in dict(o) or ('color_map' in dict(o) and not (m.quads or m.plates)):
                continue
            o = dict(o)
            rec.history = [case, o]
            f, r = (draw.VtkFormer if case[2] else draw.VtkFunction)(m), draw.Vtk(m)
            f.set(**dict({'annotation_size': p31.ANN}, **o))
            r.set(**dict({'annotation_size': p31.ANN}, **o))
            key = 'function:%s:%s:%s' % (case[1], f.name, sorted(o))
            if o.get('deformed_shape') and 'case' in o:
                for x in (f, r):
                    try:
                        x.draw()
                        rec.fail(key + ':refused', 'a displaced shape was drawn for a load case')
                    except Exception:
                        rec.step()
            else:
                a, b = f.draw(), r.draw()
                rec.true(key, a.key() == b.key(), '%s with %s differs from the renderer: %d, %d, %d and %d, %d, %d labels, lines, faces' % (
                    f.name, o, len(a.labels), len(a.segs), len(a.faces), len(b.labels), len(b.segs), len(b.faces)))
                rec.trace()
            r.close()
            rec.step()
            rec.state((key, repr(o)))
    rec.true('function:results', p31.unchanged(before, p31.result_state(m)), 'drawing changed results')
    rec.outcome(case)


def run(case, rec):
    p31.BACKEND = draw.Vtk
    if case[0] == 'function':
        rec.history = case
        return function(case, rec)
    p31.run(case, rec)
