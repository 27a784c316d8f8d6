"""The quadrilateral element."""
from .. import elem

ID = 'P19'
TITLE = "Quadrilateral elements give exact stresses and forces for their deformations"
RULE = ('shape x thickness x Poisson ratio x stiffness modifiers x position in space x starting corner x direction (quick: one deviation from the plain element, two for one shape; '
        'thorough: three); per element every unit displacement of its 24 freedoms, every rigid movement and every constant strain and curvature state as a separate model; '
        'patches of unequal and of distorted elements with mixed corners and directions under every constant state')
ASSUMPTIONS = ['stiffness modifiers act on the membrane stiffness only (documented in the code)', 'patches of elements whose local axes differ use modifiers for which the membrane stiffness is the same in both',
               'the drilling freedom has a weak spring to ground']


def cases(tier):
    out = [['el'] + c for c in elem.space({**elem.SHAPES, **elem.SKEW}, tier)]
    for t in elem.THICK:
        for nu in elem.NU:
            for fr in elem.FRAMES:
                for st in ([0], [0, 1, 2, 3], [2, 3, 1]):
                    for rv in ([0], [1], [0, 1, 1]):
                        for lay, md in [(l, k) for l in ('RECT', 'DIST') for k in ((0, 3) if st + rv != [0, 0] else (0, 3, 4)) if l == 'RECT' or k == 0]:
                            if tier == 'quick' and sum([t != elem.THICK[1], nu != elem.NU[0], fr != 'XY', st != [0], rv != [0], md != 0]) > 1 + (t == elem.THICK[2]):
                                continue
                            out.append(['patch', t, nu, fr, st, rv, md, lay])
    return out


def run(case, rec):
    if case[0] == 'el':
        elem.run(case[1:], rec, 'quad')
    else:
        _, t, nu, fr, st, rv, md, lay = case
        elem.patch('quad', t, nu, elem.MODS[md], fr, elem.turned(getattr(elem, lay), st, rv), rec)
