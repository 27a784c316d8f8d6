#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md (between the markers) from the modules and the table below."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
# oracle; what the tests cannot reach
O = {
    'P01': ('balance equations: six for the structure, six per node, six per member; no reference solution is needed', 'any pairing of element kind, release, support kind and load'),
    'P02': ('independent reference model executed in lock-step (explicit release unknowns, Gauss-integrated loads)', 'orientation x end condition x load'),
    'P03': ('statics of the cut and integrated curvature at every section between and at all breaks', 'diagrams are functions, tests read ordinates'),
    'P04': ('the point queries of the same diagram; extremes are sought on a refined grid plus all breaks', 'any answer in isolation looks right'),
    'P05': ('reference solution of the same member without any interior node', 'subsets of interior nodes x creation order'),
    'P06': ('linear combination of the results of the single cases; order and company of combinations must not matter', 'factors x subsets x orders of combinations'),
    'P07': ('all entry points and options must agree, with each other and with the reference', 'product of options x structures'),
    'P08': ('every activity pattern is enumerated on the reference; the outcome must be complementary or the monotone drop-out result', 'the pattern depends on the whole structure and combination history'),
    'P09': ('every activity pattern is enumerated on the reference', 'as P08, with state kept between combinations'),
    'P10': ('a freshly built identical model (from the abstract state of the reference)', 'sequences of edits, analyses and queries'),
    'P11': ('abstract registry: every handle refers to its own object; names unique, nothing overwritten', 'sequences of adding and deleting'),
    'P12': ('abstract deletion on the reference model, then lock-step analysis', 'every object and pair x state of the model'),
    'P13': ('the model built with the nodes already merged', 'which end is attached where, who carries what'),
    'P14': ('the same model with the names substituted (relabelled results)', 'permutations and overlaps of names'),
    'P15': ('independent geometric specification: cover, no overlap, conformity, orientation, control lines, openings', 'control values x openings x planes'),
    'P16': ('geometric specification of annuli, frusta and cylinders: radii, levels, closure, conformity, area', 'radii x sizes x axes x origins'),
    'P17': ('registries after every operation; integrity of pre-existing content; merged grids', 'sequences of mesh operations with colliding names'),
    'P18': ('closed-form 12-term polynomial plate and bilinear membrane built independently; constant strain and curvature states', 'every unit displacement of every shape, start, direction and position'),
    'P19': ("Katili's DKMQ written from its side definition and bilinear membrane; patch tests on distorted meshes", 'as P18'),
    'P20': ('pressure times vector area and its first moments', 'element kind x shape x numbering x plane x factors'),
    'P21': ('independent two-step geometric stiffness solution; closed-form beam-column theory; equilibrium on the deflected shape', 'end conditions x axial level x load x releases'),
    'P22': ('rank of the reference stiffness matrix; equilibrium of what is returned', 'all 4096 support and release patterns of a member, panels, patches'),
    'P23': ('stated displacement at the node; reference solution; rigid settlements leave no forces', 'support patterns x enforced displacements x redefinition histories'),
    'P24': ('factor-weighted sum computed abstractly; which combinations an analysis with tags must produce', 'assignments of loads to cases and tags to combinations'),
    'P25': ('the original results rotated; the reference solution of the image', 'all 48 axis maps, reversal of every subset of members'),
    'P26': ('sums of loads and reactions computed independently, compared with every printed number', 'structures x tags x options'),
    'P27': ('recomputed from element results at corners and centre', 'which element, corner, sign and combination governs'),
    'P29': ('the results of the same structure in its original units, converted', 'every structure, load pair, mesh, mechanism x units x analysis'),
    'P30': ('the parsed tables of the report against the answers of the model', 'structure x combinations x order of names x sections'),
    'P31': ('the scene read back from the render pipeline against the model; a fresh renderer', 'load kind x orientation x factor; sequences of settings'),
    'P32': ('as P31, for the older module', 'as P31'),
    'P33': ('the reference diagram (statics of the cut, integrated curvature), the point queries after P-Delta; charts are recorded instead of shown', 'plot x previous request x combination'),
    'P34': ('the equations themselves: sums over elements, K D = P - FER, symmetry, rigid motions, resultants of fixed end reactions', 'structure x state of one-way elements x order of requests x releases'),
    'P35': ('the published yield polynomial and its derivatives; the same model with the properties given directly', 'grid of forces; ways of giving properties x later operations'),
    'P36': ('the same model alone in a process that has seen no other', 'interleavings of stages, preemption at every operation, copies at every point of every history; mutable arguments'),
    'P37': ('the same model given in floats', 'types x operations x analyses x query positions'),
    'P38': ('a recount of discrepancies by object identity', 'histories of public operations to depth 3; single, double and triple faults'),
    'P39': ('the same model alone in a process that has seen no other', 'every source line of one program as preemption point'),
    'P40': ('the same model without the interruption', 'every source line of the interrupted call as crash point x the call that follows'),
    'P41': ('closed solutions: Navier series, annular plate, Lame, membrane shells, shear-flexible tank wall, Bredt and Timoshenko box, stability functions', 'problem x element type x plane/axis x proportions, each a sequence of refined meshes'),
    'P28': ('deep snapshot of the model before and after; results of a model that never saw the request', 'every operation x argument x bad value x phase'),
}
TIMES = {}
import json
out = []
for i in range(1, 100):
    p = "P%02d" % i
    if p not in O:
        continue
    m = importlib.import_module('mc.props.' + p.lower())
    try:
        ev = json.load(open(os.path.join(HERE, 'evidence', p + '.json')))['coverage']
    except OSError:
        ev = {}
    a, b = O[p]
    out.append('### %s %s\n' % (p, m.TITLE))
    out.append('* **Enumerated**: %s.' % m.RULE)
    out.append('* **Oracle**: %s.' % a)
    out.append('* **Beyond the tests**: %s.' % b)
    if m.ASSUMPTIONS:
        out.append('* **Assumes**: %s.' % '; '.join(m.ASSUMPTIONS))
    out.append('* **Bound of the quick tier**: %d cases.\n' % len(m.cases('quick')))
s = open(os.path.join(HERE, 'DESIGN.md')).read()
B, E = '<!-- properties -->\n', '<!-- /properties -->\n'
if B not in s:
    s += '\n## Per property\n\n' + B + E
s = s[:s.index(B) + len(B)] + '\n'.join(out) + s[s.index(E):]

# the planted changes
rows = ['| change | broken property, caught by its quick check | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
B, E = '<!-- seeds -->\n', '<!-- /seeds -->\n'
s = s[:s.index(B) + len(B)] + '\n'.join(rows) + '\n' + s[s.index(E):]
# the defects
kf = [l.split(' ', 3)[1:] for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('fixed:')]
rows = ['| property | commit | what failed |', '|---|---|---|'] + ['| %s | %s | %s |' % (a.split('=')[1], c, t.strip()) for a, c, t in kf]
B, E = '<!-- fixed -->\n', '<!-- /fixed -->\n'
s = s[:s.index(B) + len(B)] + '\n'.join(rows) + '\n' + s[s.index(E):]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
