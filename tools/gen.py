#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a module)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'PyNite/FEModel3D.py'
A = 'PyNite/Analysis.py'
M = 'PyNite/Member3D.py'
PM = 'PyNite/PhysMember.py'
SEG = 'PyNite/BeamSegZ.py'
SEGY = 'PyNite/BeamSegY.py'
FER = 'PyNite/FixedEndReactions.py'
MESH = 'PyNite/Mesh.py'
Q = 'PyNite/Quad3D.py'
PL = 'PyNite/Plate3D.py'
SP = 'PyNite/Spring3D.py'
N = 'PyNite/Node3D.py'
LC = 'PyNite/LoadCombo.py'

# id, title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanisms, level_note
T = []


def P(*a):
    T.append(a)


P('P01', 'Reactions and element end forces balance the applied loads',
  'After any analysis, for every load combination, the support reactions together with the applied loads (factored by the combination) sum to zero in force and moment, '
  'the forces that all elements exert on each joint balance the loads applied there, and the end forces of every member balance the loads along it. '
  'This holds whatever mixture of members, springs, support springs, plates, quads, releases, settlements and nodes along members the model has. '
  'Freedoms without support report no reaction.',
  ['inputs', 'configurations'], 'every structure of the library x every set of at most d deviations x analyze / analyze_linear x every load alone and all together',
  'The tests compare a few hand-calculated reactions; they cannot quantify over combinations of element kinds, releases, supports and loads.',
  [A, F, M, SP, FER], [('reaction summation', A + ':_calc_reactions'), ('global load and fixed-end vectors', F + ':P, FER'), ('member end forces', M + ':f, fer')],
  'Exhaustive over the stated lattice on the real code; the balance equations need no reference solution.')

P('P02', 'Displacements and reactions equal the exact linear solution',
  'For every linear model, each node\'s displacements and each supported freedom\'s reaction equal those of the exact solution of the structure described by the user '
  '(prismatic beam theory for members, stated springs, supports, settlements, releases and loads in local or global directions). '
  'The order and names in which the model was described do not matter. The result is the same for any orientation and for members with a reference (auxiliary) node.',
  ['inputs', 'configurations'], 'every structure x every set of at most d deviations x every load kind in its own combination, plus a full sweep of single members over orientation, load kind and position',
  'Tests sample some twenty structures; the guarantee is about every combination of orientation, end condition and load.',
  [F, A, M, FER, SP], [('stiffness assembly and partition', F + ':K; ' + A + ':_partition'), ('local axes', M + ':T'), ('fixed end reactions', FER), ('static condensation of releases', M + ':k, fer')],
  'Every enumerated history is replayed on an independent reference (explicit release unknowns, Gauss-integrated loads) and compared at 1e-6.')

P('P03', 'Member force and deflection diagrams are exact at every section',
  'After a linear analysis, shear, moment, axial force, torque and deflection reported at any section of a member equal the values that follow from equilibrium of the cut and integration of curvature, '
  'for every load kind, direction, position and end release, and on both sides of every load and node.',
  ['inputs', 'configurations'], 'orientation x reference node x release pattern x support pattern x interior nodes x (every single load, every representative pair of loads) x stations',
  'Diagrams are functions; tests read a few ordinates of a few beams.',
  [M, PM, SEG, SEGY], [('segment construction', M + ':_segment_member'), ('segment polynomials', SEG + '; ' + SEGY), ('sub-member lookup', PM + ':find_member')],
  'All stations between and at every break point of every enumerated beam, against statics of the cut.')

P('P04', 'Point, array and max/min queries of a member describe one and the same diagram',
  'For every member, combination and quantity, the array queries return the point queries at the stated stations, the reported maximum and minimum are attained by the diagram and bound every ordinate of it, '
  'the end forces agree with the diagram ends, and relative deflection is the deflection measured from the chord. '
  'Queries have no side effects: repeating them in any order gives the same answers.',
  ['inputs', 'configurations', 'histories'], 'every frame structure and deviation, single members with every pair of representative loads, every query order over combinations',
  'Existing tests check a handful of maxima; the extremes depend on where each combination of loads puts the peak.',
  [M, PM, SEG, SEGY], [('maxima and minima', M + ':max_*/min_*'), ('result arrays', M + ':*_array, _extract_vector_results'), ('physical member overrides', PM)],
  'Exact extremes come from the polynomial pieces of the reference; deflection extremes are sampled by the code and only bounded.')

P('P05', 'Member results do not depend on how many nodes lie along the member',
  'Adding nodes along a member, before or after creating it and in any order, changes neither its section forces and deflections at any position nor any displacement or reaction of the structure.',
  ['histories', 'configurations'], 'every subset of interior node positions x creation order x orientation x releases x loads',
  'Tests cover one continuous beam; the guarantee is over subsets, positions and loads that cross the nodes.',
  [PM, F], [('discretisation and load splitting', PM + ':descritize'), ('node detection', PM + ':descritize')],
  'Compared with the same member without interior nodes on the real code and with the reference.')

P('P06', 'Load combinations superpose and do not influence one another',
  'In a linear model the result of a combination is the factored sum of the results of its load cases, for every result quantity, and does not depend on which other combinations exist or the order they were defined and solved in.',
  ['inputs', 'histories'], 'every structure x every factor vector over three cases in one model x every order of definition of the combinations',
  'Tests use one or two combinations; independence between combinations is a relation over sets of runs.',
  [F, M, LC], [('combination factors', F + ':P, FER; ' + M + ':fer, _segment_member; ' + Q + ':fer'), ('per-combination caches', M + ':_solved_combo')],
  'All result vectors, including plate and quad results, of every factor vector compared with the superposed basis.')

P('P07', 'Solver options and entry points agree on linear structures',
  'For a linear structure, analyze and analyze_linear give the same results with the sparse and the dense solver, with or without stability checking, statics checking and logging; P-Delta analysis gives the same results with the sparse and dense solver; '
  'and running the analyses one after another does not change the results.',
  ['configurations', 'histories'], 'every structure and deviation x every option combination x every ordered pair of analyses',
  'Tests run one option set per structure.',
  [F, A], [('partitioned solve', F + ':analyze, analyze_linear; ' + A + ':_PDelta_step')],
  'Differential: every option vector against the first one on fresh models, and sequences on one model.')

P('P08', 'Tension/compression-only members and springs never carry the forbidden force',
  'After an analysis, in every load combination, no tension-only member or spring reports compression and no compression-only one reports tension; an element left out of a combination reports no force in any query, '
  'and displacements and reactions are those of the structure without it. Elements whose force is admissible stay active, and each combination is decided on its own.',
  ['inputs', 'configurations'], 'one-way assemblies x every assignment of two-way/tension-only/compression-only x every load vector, all combinations in one model',
  'Tests use one braced frame per sign; the active set depends on every combination of loads and flags.',
  [A, F, M, SP, PM], [('active set iteration', A + ':_check_TC_convergence; ' + F + ':analyze'), ('inactive elements', M + ':f; ' + SP + ':f')],
  'All activity patterns are enumerated with the reference solver to find the admissible ones.')

P('P09', 'One-way support springs act in their stated direction only',
  'After an analysis, in every load combination, a one-way support spring resists (and reports the reaction stiffness times displacement with opposite sign) exactly when the node moves in its stated direction, and otherwise reports no reaction; '
  'two-way support springs always resist. The outcome for a combination does not depend on the other combinations or their order.',
  ['inputs', 'configurations', 'histories'], 'assemblies with up to four one-way support springs x every sign assignment x every load vector x order of combinations',
  'Tests use one beam on compression-only springs with one combination.',
  [A, F, N], [('spring activity', A + ':_check_TC_convergence, _activate_support_springs, _store_support_springs')],
  'All activity patterns are enumerated with the reference solver; results compared with the unique complementary one.')

P('P10', 'Results depend only on the current model, not on how it got there',
  'Whatever sequence of edits, analyses and queries a model went through, the results of an analysis equal those of the same analysis on a freshly built identical model. '
  'Every edit that can change results marks the solution as out of date, and results of an earlier analysis never leak into a later one.',
  ['histories'], 'every sequence up to depth d over an alphabet of edits, analyses and queries',
  'Tests analyse each model once; staleness appears only in multi-step histories.',
  [F, A, M, PM], [('preparation', A + ':_prepare_model'), ('solution flag', F + ':solution'), ('segment cache', M + ':_solved_combo, _segment_member')],
  'Every history is compared step by step with a freshly built model of the same content.')

P('P11', 'Every name identifies exactly one object and is found again by name',
  'Adding an object under a name already used for that kind is refused with an error and leaves the model unchanged; automatically generated names are returned, never collide with existing ones, and the object is found under the returned name. '
  'An object and its registry entry always carry the same name.',
  ['histories'], 'every sequence up to depth d of explicit and automatic additions and deletions of every kind of object',
  'Tests never mix automatic and explicit names with deletions.',
  [F], [('name registry', F + ':add_*, unique_name')],
  'Exhaustive operation sequences, compared with an abstract registry.')

P('P12', 'Deleting an object removes everything that depends on it and nothing else',
  'Deleting a node removes every member, spring, plate and quad attached to it and leaves everything else untouched; deleting a member, spring or reference node removes just that (members that used a deleted reference node fall back to their default axes). Deleting the loads removes all loads and all results based on them, and nothing else. '
  'The remaining model gives the same results as one in which the deleted objects never existed.',
  ['histories'], 'every structure x every deletable object and every ordered pair of deletions',
  'Tests do not delete anything.',
  [F], [('deletion', F + ':delete_node, delete_member, delete_spring, delete_auxnode, delete_loads')],
  'Results after every deletion sequence are compared with a model built without the deleted objects.')

P('P13', 'Merging duplicate nodes joins everything at coincident nodes and loses nothing',
  'After merging, no two nodes lie within the tolerance of each other, every element that was attached to a removed node is attached to the node that replaced it, and supports, support springs, enforced displacements and loads of the removed node are kept. '
  'Nodes further apart than the tolerance are untouched, and the returned names are exactly those of the removed nodes.',
  ['histories', 'inputs'], 'every grouping of nodes into coincident clusters x attributes on each copy x attached element kinds x creation order',
  'Tests merge one mesh pair.',
  [F], [('merging', F + ':merge_duplicate_nodes')],
  'Analysis results after merging are compared with the model described with shared nodes from the start.')

P('P14', 'Renaming keeps every object and changes no result',
  'Renaming gives every node and element a new unique name, keeps every object, every connection, support and load, keeps the registry consistent with the objects\' own names, and changes no analysis result.',
  ['histories'], 'every assignment of awkward initial names (permutations of the target names, gaps, mixtures) x model contents',
  'Tests never rename.',
  [F], [('renaming', F + ':rename')],
  'Every permutation of names over the target name set, up to size 4 (5 thorough), compared by geometry and results.')

P('P15', 'Rectangle meshes tile their area, follow control lines and leave out openings',
  'A generated rectangle mesh covers exactly the rectangle minus its openings, without gaps or overlaps, with shared nodes between neighbouring elements, element edges on every control line and opening edge, positive consistent orientation, and element size not exceeding the requested size. '
  'Every node lies in the requested plane at the requested origin.',
  ['inputs', 'configurations'], 'dimensions x mesh sizes x plane x origin x element type x every set of control lines and openings on a grid',
  'Tests use one or two wall meshes.',
  [MESH, F], [('rectangle generation', MESH + ':RectangleMesh.generate'), ('openings', MESH + ':RectangleMesh.add_rect_opening')],
  'Each mesh is checked against the set-theoretic description of the area.')

P('P16', 'Curved meshes have the stated geometry and connectivity',
  'Generated annulus, frustum and cylinder meshes place every node on the stated surface (radii, height, origin, axis), close around the circumference, share nodes between neighbouring elements without gaps or overlaps, and use the stated thickness, material and stiffness modifiers. Elements of a mesh all face the same side of the surface.',
  ['inputs', 'configurations'], 'radii x heights x mesh sizes x axis x origin x element type x start names',
  'Tests use one tank.',
  [MESH, F], [('annulus, frustum and cylinder generation', MESH)],
  'Every node and element of each enumerated mesh is checked against the analytic surface and its tiling.')

P('P17', 'Meshes live alongside existing content and each other',
  'Adding or generating a mesh never changes or replaces existing nodes and elements, mesh node and element registries refer to the objects in the model, an ungenerated mesh is generated by the analysis, and generating is not repeated. '
  'Meshes that touch are joined when duplicate nodes are merged.',
  ['histories', 'configurations'], 'every ordered pair of meshes and hand-made elements with colliding names, generated by hand or by the analysis',
  'Tests generate meshes into empty models.',
  [MESH, F, A], [('mesh registration', F + ':add_rectangle_mesh, ...; ' + MESH + ':Mesh._rename_duplicates, _discard'), ('automatic generation', A + ':_prepare_model')],
  'Object identities and contents are compared before and after each operation.')

P('P18', 'Rectangular plate elements give exact stresses and forces for their deformations',
  'Plate stiffness is symmetric, stress-free under rigid motion, reproduces constant membrane strain and constant curvature exactly, and the reported moments, shears and membrane forces follow from the nodal displacements; results do not depend on the plate\'s orientation or on the corner it starts from.',
  ['inputs', 'configurations'], 'aspect ratios x thickness x Poisson ratio x stiffness modifiers x orientation x every basis deformation x stations',
  'Tests compare a few centre deflections within several percent.',
  [PL], [('stiffness', PL + ':k_b, k_m'), ('results', PL + ':moment, shear, membrane')],
  'Every basis deformation state of the element, compared with an independent 12-term polynomial element.')

P('P19', 'Quadrilateral elements give exact stresses and forces for their deformations',
  'Quad stiffness is symmetric, stress-free under rigid motion, passes the constant-strain and constant-curvature patch tests for distorted shapes, and the reported moments, shears and membrane stresses follow from the nodal displacements; results do not depend on orientation or on the corner it starts from.',
  ['inputs', 'configurations'], 'quadrilateral shapes x thickness x Poisson ratio x stiffness modifiers x orientation x every basis deformation x stations',
  'Tests compare a few centre values within several percent.',
  [Q], [('stiffness', Q + ':k_b, k_m'), ('results', Q + ':moment, shear, membrane')],
  'Every basis deformation state, compared with an independent DKMQ formulation.')

P('P20', 'Surface pressure reaches the structure completely, in the right direction',
  'The nodal loads a pressure produces have the pressure times area as resultant along the element\'s local normal, acting through the centroid of the loaded area, for every plate and quad shape and orientation, factored by the combination; several pressures on an element add up, and pressure on a whole mesh equals pressure on each of its elements.',
  ['inputs', 'configurations'], 'shapes x orientation x combinations of pressure cases and factors',
  'Tests check one wall.',
  [Q, PL, FER, F], [('pressure loads', Q + ':fer; ' + PL + ':fer'), ('pressure API', F + ':add_quad_surface_pressure, add_plate_surface_pressure')],
  'Force and moment resultants from reactions of fully supported elements.')

P('P21', 'P-Delta analysis gives the second-order solution',
  'P-Delta analysis returns the displacements of the structure with the geometric stiffness of its axial forces, member moments include the effect of axial force on the deflected shape and stay in equilibrium in the deformed geometry, and without axial force the results equal linear ones. '
  'Results do not depend on the combination order or on earlier analyses.',
  ['inputs', 'configurations', 'histories'], 'columns and frames x axial force levels x end conditions x orientation x order of combinations',
  'Tests check two AISC benchmark columns.',
  [A, F, M, SEG, SEGY], [('second-order step', A + ':_PDelta_step; ' + F + ':analyze_PDelta'), ('geometric stiffness', M + ':kg')],
  'Compared with an independent implementation of the same two-step scheme.')

P('P22', 'Unstable structures are refused, never solved',
  'Analysing a structure that can move without resistance raises an error with every solver and entry point; a successful analysis never leaves results that are not finite numbers, and a stable structure is never refused.',
  ['configurations', 'inputs'], 'every support pattern and release pattern of the small structures x solver options',
  'Tests check one unstable node.',
  [A, F], [('stability check', A + ':_check_stability'), ('singular solve', F + ':analyze, analyze_linear')],
  'Stability decided by the rank of the reference stiffness for every pattern.')

P('P23', 'Supports and enforced displacements are honoured exactly',
  'Every supported freedom has exactly the prescribed displacement (zero, or the enforced value), every enforced displacement is reproduced in every combination, changing a support definition takes effect at the next analysis, and only supported or sprung freedoms have reactions.',
  ['configurations', 'histories'], 'all 2^6 support patterns and settlement subsets on each node kind, and every order of redefinition',
  'Tests use a few standard supports.',
  [F, A, N], [('known freedoms', A + ':_partition_D'), ('support definition', F + ':def_support, def_node_disp')],
  'Every pattern is enumerated and compared with the reference.')

P('P24', 'Load cases, combinations, tags and self weight apply exactly as defined',
  'A combination applies each load case times its factor and nothing else, for every kind of load; analysing by tags solves exactly the combinations that carry one of the tags; deleting loads removes all loads and keeps the rest; self weight equals density times area times length on every member; '
  'and the list of load cases names exactly those in use.',
  ['configurations', 'histories'], 'every assignment of loads to cases, factor maps, tag assignments and tag queries, with edits in between',
  'Tests rarely use more than one case per model.',
  [F, A, LC], [('tag selection', A + ':_identify_combos'), ('load management', F + ':add_load_combo, delete_loads, add_member_self_weight, load_cases')],
  'All small tag and factor assignments enumerated.')

P('P25', 'Results turn with the structure',
  'Rotating, mirroring or shifting the whole structure with its loads turns displacements and reactions with it and leaves all section forces and element results unchanged, including tiny coordinate round-off on vertical or horizontal members; reversing a member or renaming objects does not change physical results.',
  ['inputs', 'configurations'], 'every structure x every axis permutation rotation and skew rotations x translations x coordinate noise',
  'Tests place structures along the axes.',
  [M, SP, Q, PL], [('local axes', M + ':T; ' + SP + ':T; ' + Q + ':T; ' + PL + ':T')],
  'Metamorphic: every structure against its image on the real code.')

P('P26', 'The statics check reports the true sums of loads and reactions',
  'The statics check lists, for every analysed combination, the true total applied force and moment about the origin and the true total reaction, so that a balanced structure shows matching values; it works with every solver option and tag selection and does not change results.',
  ['inputs', 'configurations'], 'every structure and load kind x entry points x tag selections',
  'No test inspects the table.',
  [A], [('statics check', A + ':_check_statics')],
  'The printed table is parsed and compared with sums computed independently.')

P('P27', 'Mesh result envelopes equal the extremes over their elements',
  'The maximum and minimum moments and shears reported for a mesh are the largest and smallest values at the corners and centres of its own elements, over the requested combination or, if none is given, over all combinations; elements outside the mesh do not count, and later analyses are reflected.',
  ['inputs', 'configurations'], 'every mesh kind x loaded element x result direction x combination selection',
  'Tests read one envelope.',
  [MESH], [('envelopes', MESH + ':Mesh.max_shear, min_shear, max_moment, min_moment')],
  'Recomputed from element results for every request.')

P('P28', 'Invalid requests are refused and leave the model as it was',
  'A request that refers to a missing (or deleted, or differently spelled) node, auxiliary node, member, spring, element, material or section, re-uses a name, or gives an unknown load direction, degree of freedom, spring sign, mesh plane, axis or element type raises an error (a bad mesh at the latest when it is generated) and changes nothing: nothing is added, removed or altered, and the model analyses to the same results as one that never saw the request. Results at positions outside a member, for unknown combinations or directions are never answered with a number. An analysis that is refused leaves a model that, once cured, gives the same results as one built that way.',
  ['histories', 'inputs'], 'every prefix of the construction and later phase of a model x every modelling operation x argument x kind of invalid value; every refused analysis x cure',
  'Tests contain no negative requests.',
  [F, MESH, A], [('argument checks', F + ':add_*, def_*, delete_*'), ('mesh generation', MESH + ':generate'), ('analysis refusals', A + ':_check_stability, _solve_displacements')],
  'A full snapshot of the model before and after every refused request.')

P('P29', 'Results do not depend on the units the model is written in',
  'Writing the same structure in other consistent units of length and force (feet, metres, millimetres, inches; kips, newtons, meganewtons) and converting the results back gives the same displacements, reactions, member, plate and quad results, one-way element states, meshes, merged nodes and refusals.',
  ['inputs', 'configurations'], 'every structure, load pair, one-way pattern, mesh and mechanism x analysis x seven pairs of units',
  'Tests use one system of units each.',
  [A, M, SEG, MESH], [('tolerances', A + ':_check_stability, _solve_displacements; ' + F + ':merge_duplicate_nodes; ' + M + ':segment_member')],
  'Metamorphic: every structure against its image on the real code.')

P('P30', 'Reports list the model and its results as they are',
  'The report of a solved model lists every node, support, member, plate and quad once with its own properties under its own name, and for every solved load combination the displacements, reactions, member end forces, extreme member forces and deflections, and plate and quad results that the model itself returns for that combination, member and place; sections that are switched off are left out, names appear exactly as they are, and reporting changes nothing in the model.',
  ['inputs', 'configurations'], 'every structure and element patch x plane x combination set x order of names x report section',
  'No test reads a report.',
  ['PyNite/Reporting.py', 'PyNite/Report_Template.html'], [('report', 'PyNite/Reporting.py:create_report'), ('template', 'PyNite/Report_Template.html')],
  'The generated HTML is parsed and every table compared with the model.')

P('P31', 'Renderings show the model, its loads and its results',
  'What the renderer draws is the model: a line per member and spring and a face per plate and quad between their nodes, labels at the objects they name, symbols for exactly the freedoms a support holds; an arrow per load that points the way the factored load of the chosen combination or load case acts, ends where it acts, is labelled with its factored value and is to scale with the others of its kind; in the deformed shape every active member, spring and element at its scaled displacements for that combination; contours with the corner results averaged at the nodes. After any sequence of changes of settings or model the drawing is the one a new renderer gives, options that are off draw nothing, and drawing changes nothing in the model.',
  ['inputs', 'configurations', 'histories'], 'load kinds x directions x orientations x factors; support sets; structures x combinations x deformed shapes; element patches x contours; sequences of setting changes',
  'Tests only look at whether drawing raises an error.',
  ['PyNite/Rendering.py'], [('scene', 'PyNite/Rendering.py:Renderer.update'), ('loads', 'PyNite/Rendering.py:Renderer.plot_loads'), ('shapes', 'PyNite/Rendering.py:Renderer.plot_deformed_shape')],
  'The scene is read back from the render pipeline and compared with the model.')

P('P32', 'The older VTK renderings show the model, its loads and its results',
  'The renderer of the older VTK module (Visualization.Renderer) draws the model, its supports, factored loads, deformed shapes and contours under the same rules: right place, direction, value and scale for the chosen combination or load case, nothing that is switched off, inactive or left over from an earlier drawing, and no change to the model. The functions render_model and RenderModel draw what the Renderer draws with the same settings.',
  ['inputs', 'configurations', 'histories'], 'load kinds x directions x orientations x factors; support sets; structures x combinations x deformed shapes; element patches x contours; sequences of setting changes',
  'Tests only look at whether drawing raises an error.',
  ['PyNite/Visualization.py'], [('scene', 'PyNite/Visualization.py:Renderer.update'), ('loads', 'PyNite/Visualization.py:_RenderLoads'), ('shapes and contours', 'PyNite/Visualization.py:_DeformedShape, _RenderContours')],
  'The scene is read back from the render pipeline and compared with the model.')

P('P33', 'The plots of a member show the diagram of the chosen combination',
  'Every plot method of a member (shear, moment, torque, axial force, deflection, relative deflection) shows exactly one chart with one curve: the requested number of points, equally spaced over the whole physical member, '
  'whose ordinates are the member\'s diagram for the chosen direction and load combination with the sign of the point queries. The title names the member and the combination, the value axis the quantity. '
  'This holds in any order of plots and combinations, after every kind of analysis, for members with nodes along them, and plotting changes no result. Inactive members show zero forces.',
  ['inputs', 'configurations', 'histories'], 'structures and deviations x members x combinations x plots x numbers of points; every plot after every other plot; every plot as the first request after an analysis',
  'No test looks at a plot.',
  [M, PM], [('plots', M + ':plot_shear, plot_moment, plot_torque, plot_axial, plot_deflection, plot_rel_deflection'), ('arrays', PM + ':_result_array')],
  'Charts are recorded where they would be shown and compared with the reference diagram.')

P('P34', 'Global and element matrices and vectors satisfy the equations they stand for',
  'After an analysis the global stiffness and geometric stiffness matrices, nodal load, fixed end reaction and displacement vectors that the model returns, sparse or dense, are ordered by node ID and equal the sums over the elements at work and the support springs; '
  'K D = P - FER at every free freedom and K D - P + FER is the reaction at every support (K plus the geometric stiffness of the first-order axial forces after P-Delta analysis). '
  'Stiffness matrices of the structure and of every element are symmetric and positive semidefinite, resist no rigid translation, and transform by rotations; released ends carry nothing; element end forces are stiffness times displacements plus fixed end reactions, which balance the loads on the member; '
  'the geometric stiffness is symmetric and proportional to the axial force. Asking for them changes nothing.',
  ['inputs', 'configurations', 'histories'], 'structures and deviations x combinations x sparse/dense x analyses x orders of requests; orientation x every set of end releases of a member; one-way elements and supports',
  'Tests never call these methods; they are relations between results for every structure.',
  [F, A, M, SP, Q, PL], [('assembly', F + ':K, Kg, P, FER, D'), ('element matrices', M + ':k, K, T, kg, fer; ' + SP + ':k, T; ' + Q + ':k, T; ' + PL + ':k, T')],
  'The equations are checked on every enumerated structure, combination and order of requests.')

P('P35', 'Members use their cross-section; the yield surface and its gradient are exact',
  'A member that is given a cross-section by name behaves exactly as one given the same A, Iy, Iz and J directly (values given next to a section are ignored), in every analysis and after renaming, merging, splitting, deleting and adding members; the member\'s own material governs its stiffness. '
  'A steel section\'s yield function is Eq. 10.18 of McGuire et al. with the section\'s plastic strengths, equal to one at each full plastic strength alone, and G is its exact gradient (zero for shear and torsion); a section class that only defines Phi gets the numerical gradient.',
  ['inputs', 'configurations', 'histories'], 'structures x every way of giving properties to each member x analyses x later operations; shapes x complete grid of three forces; monomials up to degree six',
  'Tests use one section in one beam.',
  ['PyNite/Section.py', M, PM, F], [('yield surface', 'PyNite/Section.py:SteelSection.Phi, G'), ('default gradient', 'PyNite/Section.py:Section.G'), ('properties', M + ':__init__')],
  'Complete grid against the formula and its derivatives; lock-step of models with and without sections.')

P('P36', 'Models, their copies and the values handed to them do not affect each other',
  'Building, editing, solving or querying one model changes nothing about another model in the same process, in whatever order their calls alternate. A deep copy or an unpickled copy of a model taken at any point gives the results the original would, and later work on either leaves the other alone. '
  'Lists, dictionaries and arrays passed as arguments are not modified and can be reused for another object or model; omitted arguments start from the same defaults each time; arrays and lists returned by queries may be changed by the caller without affecting later answers.',
  ['schedules', 'histories', 'inputs'], 'interleavings of the stages of every pair of models; each model preempted by each other at every operation; copies at every point of every history; every mutable argument and default',
  'Tests build one model per test and never copy one; shared state shows only in a second model or after a copy.',
  [F, MESH, 'PyNite/LoadCombo.py', M, 'PyNite/Node3D.py', A], [('default arguments', MESH + ':origin=[0, 0, 0]'), ('copies of lists', MESH + ':RectangleMesh.__init__'), ('factors', 'PyNite/LoadCombo.py:LoadCombo.__init__'), ('shared attributes', M + ':Member3D class attributes')],
  'Stage-level interleavings are enumerated completely in thorough; one thread only.')

P('P37', 'Whole numbers give the same results as int, float or numpy scalar',
  'Coordinates, properties, dimensions, mesh control lines and origins, loads and their positions, factors, stiffnesses, enforced displacements and query positions that are whole numbers give the same model and the same results whether they are passed as Python int, float, numpy int64 or numpy float64, for every analysis, sparse and dense.',
  ['inputs', 'configurations'], 'models of every kind x every operation, every kind of operation and every pair of kinds given in each type; 300 single features of a small frame x types x analyses; every query position x types',
  'Tests use whichever type their author typed; integer truncation or a type test shows only for the other one.',
  [F, A, MESH, M, PM, 'PyNite/Node3D.py', 'PyNite/Spring3D.py'], [('enforced displacements', A + ':_aux_list / D2'), ('meshes', MESH + ':generate'), ('queries', PM + ':find_member')],
  'Types narrower than 64 bits, complex numbers and strings are not claimed.')

P('P38', 'The mesh integrity check finds exactly the meshes out of step with the model',
  '`check_mesh_integrity` reports no errors for every mesh whose nodes and elements are those of the model: after generating, merging duplicate nodes, renaming, deleting nodes, loading, solving or adding other meshes. It reports each kind of discrepancy that is present, and only those, with the number of elements or nodes concerned: '
  'elements attached to nodes outside the mesh or the model, elements with repeated nodes, element names unknown to the model, elements that are not in the model, elements that differ from the model\'s element of that name, node keys that differ from the nodes\' names; it does not fail on a damaged mesh, and prints what it would return.',
  ['histories', 'fault_sequences', 'inputs'], 'mesh kinds x every history of public operations up to depth 3; every single fault and every ordered pair (and triple) of fault kinds injected at two or more elements',
  'No test calls the check on a damaged mesh.',
  [MESH, F], [('the check', MESH + ':check_mesh_integrity'), ('keeping in step', F + ':merge_duplicate_nodes, rename, delete_mesh')],
  'Every fault combination within the bound is injected into the real objects; the oracle recounts discrepancies by identity.')

P('P39', 'Models worked on in parallel threads do not disturb each other',
  'Threads that each build, solve and query a model of their own at the same time get the results, and leave their models with the content, that they would working alone, wherever one is preempted by another.',
  ['schedules'], 'every source line of PyNite executed by a program that builds, solves and queries a model, as the point at which another thread runs a program on another model; pairs of frames, shells and meshes with the same names',
  'A test runs one thread; state shared between objects of two models shows only for particular interleavings.',
  [F, A, M, PM, Q, PL, MESH, 'PyNite/Spring3D.py'], [('assembly', F + ':K, Kg, FER, P'), ('segments', M + ':_segment_member'), ('element matrices', Q + ':k, B_b, J')],
  'One preemption; a preempting thread runs its whole program. One model used by two threads at once is not claimed.')

P('P40', 'Analysis, queries and mesh generation cut short by an exception can be repeated',
  'When an analysis, a query of results or the generation of a mesh is cut short by an exception (Ctrl-C, lack of memory) at any point, running it again, or any other analysis instead of it, gives the same results and the same model as if nothing had happened before.',
  ['crash_points', 'histories'], 'every source line of PyNite executed by the interrupted call x kinds of analysis, query and mesh x the call that follows',
  'No test interrupts anything; half-finished state is only seen by a later call.',
  [A, F, M, PM, MESH], [('reset before analysis', A + ':_prepare_model'), ('segments', M + ':_segment_member, _solved_combo'), ('discarding an earlier generation', MESH + ':_discard')],
  'Interruption between any two source lines, first execution of each (thorough: middle and last too). Interrupted edits of a model are not claimed.')

P('P41', 'Refined models converge to plate, shell and beam-column theory',
  'When a mesh is made finer, the deflections and moments of plates, plane-stress strips, rings, circular plates, cylinders, tanks, cones and box girders of joined meshes converge to those of plate and shell theory (shear-flexible for quadrilaterals, thin for rectangular plates), in every plane, about every axis and for every element type; P-Delta analysis of a column cut into more and more members converges to the exact beam-column solution.',
  ['inputs', 'configurations'], 'problem with a closed solution x element type x plane or axis x origin x proportions x thickness x Poisson ratio x load x edge condition, each on a sequence of meshes',
  'A test samples one mesh of one problem; that errors vanish with refinement is a statement about sequences of models in every configuration.',
  [MESH, Q, PL, A, M, F], [('meshes', MESH + ':RectangleMesh, AnnulusMesh, FrustrumMesh, CylinderMesh'), ('elements', Q + ':k, moment'), ('plates', PL + ':k, moment'), ('second order', M + ':kg')],
  'Up to three halvings of the mesh size (thorough: four meshes); linear elastic isotropic material without stiffness modifiers.')

TECH = {}
props, checks = [], []
for (pid, title, stmt, over, qtext, why, files, mech, note) in T:
    if not os.path.exists(os.path.join(HERE, 'mc', 'props', pid.lower() + '.py')):
        continue
    props.append(dict(id=pid, title=title, statement=stmt, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=['public API of FEModel3D and its nodes, members and elements'], hook_needed=None)))
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
                       technique='bounded exhaustive exploration of operation histories on the real code in lock-step with a reference model',
                       level='model_checking', level_note=note))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
           notes='No hooks: every check drives the public API of the working tree in /repo. Known findings: known_findings.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(props), 'properties')
