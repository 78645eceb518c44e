PBT = 'property-based testing (Hypothesis), shrunk counterexamples; oracle: '
NOT_APPLICABLE = []
prop('F01', 'Static analysis of plane frames is exact',
     'For every stable plane frame made of beams (with hinged, released or semi-rigid ends), pin-jointed bars and '
     'springs, under nodal loads and constant or linearly varying member loads given in global or member axes, the '
     'linear static analysis returns the nodal displacements and member end forces (axial, shear, moment) of '
     'linear-elastic frame theory, whichever way of handling supports is chosen. The reported end forces keep every '
     'member and every free node in equilibrium with the applied loads, released ends carry no force, and supported '
     'degrees of freedom do not move.',
     ['inputs', 'configurations'], 'all geometries, topologies, member types, releases, joint stiffnesses, supports '
     'and loads; both support-handling methods',
     'The FEM test file of the repository does not even parse, and a handful of textbook frames cannot cover '
     'combinations of directions, releases, load shapes and load axes.',
     FEM, [('linear_statics', 'framefem.py FrameFEM.linear_statics'),
           ('element stiffness and load vectors', 'elements/*.py')],
     PBT + 'independent frame solver (Gauss-integrated elements, explicit hinge unknowns) and force equilibrium',
     'generated frames of 2-8 nodes, all element types; agreement to 2e-6')
prop('F02', 'Analysis results depend only on the current model',
     'However a frame model was edited and analysed before, analysing a load case returns the response of the model '
     'as it is now: after changes of section, end release, joint stiffness, node position, load value or load '
     'scaling factor, and after adding or removing loads, supports, load cases or members, the displacements and member '
     'forces equal those of a freshly built equal model. Load cases are independent of one another and of the order '
     'and grouping in which they are solved, and responses superpose linearly and scale with the load factors.',
     ['histories', 'inputs'], 'all sequences of edits and analyses, all groupings of load cases',
     'Unit tests analyse a freshly built model once; stale caches and cross-talk between load cases only show after '
     'particular edit/analyse sequences.',
     FEM, [('per-load-case storage', 'framefem.py FEMNode.u / Element.fint / floc'),
           ('load case list', 'FrameFEM.linear_statics')],
     PBT + 'stateful histories against a reference solver of the current model; superposition (metamorphic)',
     'histories of 3-11 operations over 13 operation kinds')
prop('F03', 'Static analysis of space frames and trusses is exact',
     'For every stable space frame of beams and pin-jointed bars under nodal forces and moments, the static analysis '
     'returns the displacements, rotations and member end forces (axial, two shears, torsion, two moments) of '
     'linear-elastic theory. A plane frame modelled in a vertical plane of space with its out-of-plane movements '
     'prevented behaves exactly as in the plane analysis.',
     ['inputs'], 'all geometries, member directions, sections, supports and nodal loads',
     'No runnable test covers three-dimensional analysis at all.',
     FEM, [('3D beam element', 'elements/ebbeam.py EBBeam3D'), ('3D bars', 'elements/rod.py Rod')],
     PBT + 'independent 3D reference solver; plane-in-space metamorphic relation',
     'lattice frames of 2-5 nodes and tripod trusses; distributed loads on space beams excluded (not implemented)')
prop('F04', 'Linear buckling finds the smallest load factors and modes',
     'For every stable plane frame in which some member is compressed, linear buckling analysis returns the requested '
     'number of smallest load factors of the linearised stability problem, whether they are below or above one, and '
     'they scale inversely with the loads. The mode shape stored at the nodes is the mode of the corresponding load '
     'factor and does not move the supports, and refined columns reproduce the Euler loads for all classical end '
     'conditions.',
     ['inputs', 'configurations'], 'all geometries, supports, load levels and numbers of requested factors',
     'No test calls the buckling analysis; errors appear only for particular load levels or restraint patterns.',
     FEM, [('linear_buckling', 'framefem.py FrameFEM.linear_buckling'),
           ('geometric stiffness', 'elements/ebbeam.py, rod.py')],
     PBT + 'dense generalised eigenvalue solution of an independent stiffness model; Euler closed forms; residual of '
     'stored modes', 'members with released ends excluded')
prop('F05', 'Second-order analysis follows beam-column theory',
     'For every plane frame loaded below its critical load by nodal loads and uniform transverse member loads, the '
     'second-order analysis returns the displacements and member end forces of elastic beam-column theory with the '
     'axial forces of the first-order analysis acting on compressed members. It converges to the first-order result '
     'as the axial forces vanish.',
     ['inputs', 'configurations'], 'all frames, end releases, load levels below critical, both support methods',
     'No test exercises second-order analysis; the amplification depends continuously on load level, span and '
     'stiffness.',
     FEM, [('second_order_analysis', 'framefem.py FrameFEM.second_order_analysis'),
           ('stability functions', 'elements/ebbeam.py EBBeam.local_second_order_stiffness_matrix')],
     PBT + 'finely subdivided geometric-stiffness reference; closed-form amplification of beam-columns',
     'load levels 5-60 % of critical (closed forms to 90 %)')
SEC = ['metku/sections/steel/' + f for f in ('steel_section.py', 'ISection.py', 'RHS.py', 'CHS.py', 'wi.py', 'wq.py')]
prop('S01', 'Geometric properties of steel sections follow their shape',
     'For every rolled-type I section, rectangular, square or circular hollow section, welded I section and WQ section, '
     'and for every entry of the profile catalogues, the area, second moments, elastic and plastic section moduli, '
     'radii of gyration, shear areas, torsion and warping constants, perimeter, section factors, mass, centroid, plastic '
     'neutral axis and shear centre of the section object are those of the shape with its dimensions. They stay so '
     'after any sequence of changes of the dimensions, and the catalogue sources agree with each other.',
     ['inputs', 'histories'], 'all dimensions and steel grades, all catalogue entries, all sequences of dimension changes',
     'Unit tests compare a few catalogue profiles with tabulated values; formulas err for particular proportions '
     '(unsymmetric flanges, plastic axis in a flange) and after changes of dimensions.',
     SEC + ['metku/sections/steel/catalogue.py', 'metku/sections/steel/profile_data.py', 'metku/profiles/steel/isections.py'],
     [('property formulas', 'ISection.cross_section_properties, RHS_*, CHS_*, WISection, WQSection'),
      ('recalculation after changes', 'RHS.__setattr__, WISection.__getattribute__')],
     PBT + 'numerical integration over the shape; fresh object after a history of changes',
     'rounded constants of published formulas allowed (2e-4)')
prop('S02', 'Sections are classified according to Table 5.2 of EN 1993-1-1',
     'For every I, hollow or welded I section and steel grade under any axial force and major-axis bending moment, '
     'section_class() returns the least favourable class of its flanges and webs by Table 5.2: pure bending, pure '
     'compression, combined compression and bending (plastic and elastic stress ratios), tension with bending, and class '
     '1 if nothing is compressed. The result does not depend on states checked before, and it is not better in '
     'compression than in bending, nor for a stronger steel.',
     ['inputs', 'histories'], 'all dimensions, grades, forces; previous states of the section object',
     'Two or three sections are classified by tests; wrong branches, signs and limits show only near limits and for '
     'combinations of N and M.', SEC + ['metku/eurocodes/en1993/en1993_1_1.py'],
     [('limits', 'en1993_1_1.internal_part_*, outstand_part_in_compression, CHS_class'),
      ('section class', 'SteelSection.section_class, web_class_comp_bend')],
     PBT + 'independent implementation of Table 5.2; monotonicity relations',
     'unsymmetric sections: top flange in compression; minor-axis bending not classified by the library')
prop('S03', 'Cross-section resistances and utilisation follow EN 1993-1-1, 6.2',
     'For every section of class 1-3 and any axial force, shear forces and bending moments, the resistances to tension, '
     'compression, shear in both directions, elastic and plastic bending about both axes are those of clause 6.2, and '
     'section_resistance() returns the utilisation ratios of axial force, shear, bending and their interaction, the '
     'interaction rule being that of the class and kind of section.',
     ['inputs'], 'all sections, grades, force combinations and signs',
     'Tests do not cover interaction, signs, or the second axis.', SEC + ['metku/eurocodes/en1993/en1993_1_1.py'],
     [('section_resistance', 'SteelSection.section_resistance'), ('interaction', 'moment_axial_force_interact')],
     PBT + 'independent formulas of clause 6.2 on integrated section properties', 'class 1-3')
prop('S04', 'Effective sections, shear buckling and patch loading follow EN 1993-1-5',
     'For every welded I section with slender parts, the effective area in compression and the effective second moment, '
     'section modulus and moment resistance in bending are those of the section left after removing the non-effective '
     'parts of Tables 4.1 and 4.2 at the converged neutral axis, whatever was queried before. The shear buckling '
     'resistance under bending and axial force and the resistance to transverse forces follow clauses 5 and 6.',
     ['inputs', 'histories'], 'all dimensions, grades, stiffener spacings, end posts, load types, forces; order of queries',
     'Tests pin a single section; branches depend on slenderness, stress ratio, flange utilisation and load type.',
     ['metku/sections/steel/wi.py', 'metku/eurocodes/en1993/en1993_1_5.py'],
     [('effective section', 'WISection.effective_*'), ('shear buckling', 'WISection.shear_buckling_resistance'),
      ('patch loading', 'en1993_1_5.transverse_force_resistance')],
     PBT + 'effective section assembled from shapes with the reduced parts cut out; independent formulas of clauses 5, 6',
     'minor-axis effective modulus is not implemented by the library')
prop('M01', 'Member stability checks follow EN 1993-1-1, 6.3 and Annex B',
     'For every steel member, the Euler, torsional and lateral-torsional critical loads, slendernesses, buckling curves, '
     'reduction factors and resistances are those of EN 1993-1-1, and for any set of internal forces along the member, '
     'given in any order and after any earlier checks, the section, buckling, lateral-torsional and beam-column '
     'utilisations and the result of design() are those of clauses 6.2, 6.3 and Annex B for the largest compression '
     'and the largest moment.',
     ['inputs', 'histories', 'configurations'], 'all sections, lengths, buckling factors, moment diagrams, orders of '
     'sections and checks', 'A single test covers one critical moment; interaction factors depend on class, slenderness '
     'and moment diagram, and results depended on which section was checked last.',
     ['metku/structures/steel/steel_member.py', 'metku/eurocodes/en1993/en1993_1_1.py'],
     [('member checks', 'SteelMember.check_*'), ('Annex B', 'en1993_1_1.kyy..equivalent_moment_factor')],
     PBT + 'independent implementation of clause 6.3 and Annex B; permutation of sections and checks',
     'class 4 excluded; CmLT taken 1.0')
prop('E01', 'Steel at elevated temperature follows EN 1993-1-2',
     'At every temperature from 20 to 1200 C, the reduction factors and strengths of carbon steel, stainless steel '
     '1.4301 and bolts, the stress at any strain (with and without hardening), the thermal properties and the fire '
     'curves are those of EN 1993-1-2, also between the tabulated temperatures. The temperature history of unprotected '
     'steel satisfies the heat balance in every step, for the standard, hydrocarbon and user-defined fires.',
     ['inputs', 'histories'], 'all temperatures, strains, steel grades, section factors, fire curves and durations',
     'Tables are correct at their nodes; errors hide between nodes, at branch limits and in the accumulated history. '
     'There are no tests of this module.',
     ['metku/eurocodes/en1993/en1993_1_2.py', 'metku/materials/steel_data.py'],
     [('interpolation', 'en1993_1_2.reduce_property'), ('stress-strain', 'en1993_1_2.stress, stress_stainless'),
      ('heating', 'en1993_1_2.steel_temp, stainless_steel_temp')],
     PBT + 'independent tables and formulas; step-by-step heat balance; continuity of curves',
     'stainless stress-strain curve up to 1000 C and at 1200 C')
prop('E02', 'Bolts and bolted joints follow EN 1993-1-8',
     'For every bolt, steel and position, the bolt resistances and basic components are those of EN 1993-1-8. For '
     'every bolted end plate joint, with any bolt rows, groups, plate, welds, column forces and stiffeners, the '
     'resistance of every row alone, of every group, of the compression side, the forces of the rows, the moment and '
     'shear resistance and the stiffness are those of clauses 6.2 and 6.3, before and after the joint is modified. Fin '
     'plate joints follow the same rules for bolts in two directions, net sections, block tearing and welds.',
     ['inputs', 'histories'], 'all bolts, grades, geometries, row layouts, groups; modifications of a joint',
     'The tests have one joint; the governing yield line, failure mode and group depend on the dimensions.',
     ['metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py', 'metku/eurocodes/en1993/en1993_1_8/component_method.py',
      'metku/structures/steel/end_plate_joint.py', 'metku/structures/steel/fin_plate_joint.py'],
     [('bolts', 'en1993_1_8.Bolt'), ('T-stub', 'en1993_1_8.TStub*'), ('components', 'component_method'),
      ('joint', 'EndPlateJoint.MjRd, Sj_ini, VjRd'), ('fin plate', 'FinPlateJoint')],
     PBT + 'independent implementation of the component method; joint rebuilt from scratch',
     'stiffened rows: effective length of Fig. 6.11 within 15 % of the closed formula of prEN 1993-1-8')
prop('E03', 'Welded hollow section joints follow EN 1993-1-8, 7',
     'For every K gap, Y, T and X joint of rectangular hollow sections, the resistance in every failure mode (chord face, '
     'chord shear, side wall, brace, punching shear), chord stress function, strength reduction, reinforcement plate, '
     'eccentricity and gap forces are those of Tables 7.10-7.12 and of equilibrium, and design() is the ratio of the brace '
     'forces to the smallest applicable resistance, whichever brace is in compression.',
     ['inputs'], 'all chords, braces, grades, angles, gaps, forces, reinforcement plates',
     'No test exercises these joints; the governing mode depends on every dimension and sign.',
     ['metku/eurocodes/en1993/en1993_1_8/rhs_joints.py'],
     [('K', 'RHSKGapJoint'), ('Y', 'RHSYJoint'), ('X', 'RHSXJoint')],
     PBT + 'independent formulas; geometric construction of the brace axes',
     'gap shear above the shear resistance gives zero chord resistance')
prop('L01', 'Load combinations and wind loads follow EN 1990 and EN 1991',
     'For any set of permanent, imposed, snow and wind loads, the combined loads per member and direction are those of '
     'the combination of EN 1990 (6.10a/b, 6.14-6.16, 6.11b, Finnish factors) with the largest total, with the '
     'consequence class, frame spacing and area reduction (between 0.7 and 1) applied once, leaving the given loads '
     'unchanged. The wind velocity, pressure, and the zones and pressure coefficients of walls, flat and monopitch roofs '
     'are those of EN 1991-1-4 and the zones cover the roof.',
     ['inputs', 'histories'], 'all sets of loads, classes, spacings; all heights, terrains, building dimensions, slopes',
     'There are no tests; the governing combination depends on all values together.',
     ['metku/eurocodes/en1991/en1991.py', 'metku/eurocodes/en1991/en1991_1_4.py'],
     [('combinations', 'ULSCombiner, SLSCombiner, ACCCombiner, MultiCombiner'), ('wind', 'en1991_1_4')],
     PBT + 'enumeration of all combinations; independent tables and formulas; area balance',
     'monopitch roof zones and wind along the ridge are unfinished in the library')
prop('O01', 'Design variables, objectives, constraints and their approximations',
     'For every set of variables (continuous, integer, discrete, index, binary, cross-section; scaled, locked, with one or '
     'many targets) and after any sequence of substitutions, locks and unlocks, the targets hold the values of the '
     'variables, values stay within the bounds, locked ones do not move, and objectives, constraints, their gradients, '
     'penalties, normalisation and feasibility are those of the mathematical problem at that point. Linearised, '
     'conservative and moving-asymptote approximations agree in value and gradient at the point of approximation and have '
     'the convexity they promise. Discrete neighbourhoods hold the closest allowed values, and binary reformulations of '
     'index variables and variable groups are equivalent to what they replace.',
     ['inputs', 'histories'], 'all problems, points, bounds, locks, orders of operations',
     'The tests of optimization run single examples; errors appear with locked or scaled variables and in other orders.',
     ['metku/optimization/variables.py', 'metku/optimization/structopt.py', 'metku/optimization/constraints.py',
      'metku/optimization/objective.py', 'metku/optimization/opt_functions.py'],
     [('substitution', 'variables.Variable.substitute, OptimizationProblem.substitute_variables'),
      ('evaluation', 'OptimizationProblem.eval_cons, feasible, linearize, exact_penalty_fun'),
      ('approximations', 'opt_functions.Linearize, conlin_fun, mma_fun')],
     PBT + 'model of the variables and closed-form functions; random operation sequences; convexity and first-order tests',
     'variables without an initial value excluded')
prop('O02', 'Solvers return the design they report, feasible and optimal',
     'For every convex problem with linear and quadratic constraints, locked variables and minimisation or maximisation, '
     'SLSQP, trust region, MMA, SLP (linear problems) and LP find a feasible design with the optimal value within the '
     'stated tolerance, infeasible linear programs are reported so, MILP, mixed-integer SLP and branch and bound agree '
     'with enumeration, the reported objective is that of the reported design, the design is the best feasible one of the '
     'iterates, and the problem, starting point and variable bounds are left unchanged.',
     ['inputs', 'histories'], 'all convex problems (1-4 variables), starting points, locks; enumerable discrete problems',
     'Optimality holds against all other designs; a test of one problem says nothing about active bounds or locks.',
     ['metku/optimization/solvers/optsolver.py', 'metku/optimization/solvers/slsqp.py',
      'metku/optimization/solvers/slp.py', 'metku/optimization/solvers/mma.py', 'metku/optimization/solvers/lp.py',
      'metku/optimization/solvers/milp.py', 'metku/optimization/solvers/mislp.py', 'metku/optimization/solvers/bnb.py',
      'metku/optimization/solvers/ga.py', 'metku/optimization/solvers/trust_region.py'],
     [('iteration', 'OptSolver.solve'), ('scipy', 'SLSQP.solve, TrustRegionConstr.solve'), ('LP', 'LP.solve, MILP.solve'),
      ('discrete', 'MISLP, BnB, GA')],
     PBT + 'problems constructed from their KKT conditions; enumeration of discrete designs; bookkeeping of iterates',
     'MMA from a feasible start with conservative constraints; SLP with at least one constraint')
prop('O03', 'The mixed-integer linear program of a truss finds the lightest truss that carries its loads',
     'For any pin-jointed plane truss with members given in any order and direction, any lists of profiles (for all members, for '
     'single members or for groups), loads in any load cases, limits of displacements and scaling of forces and '
     'displacements, the mixed-integer program of TrussMILP has a solution exactly when some choice of profiles '
     'carries all load cases (tension, compression with buckling, displacements), its optimum is the lightest such choice, the '
     'objective is the weight of the truss, the force variables are the member forces of that truss in every load case, and '
     'the profiles are given to the members. When members may vanish (topology), the optimum is the lightest choice of '
     'members and profiles that satisfies in addition the stated conditions of nodes, supports and groups.',
     ['inputs'], 'all trusses, profile lists, load cases, limits and scalings',
     'Optimality and equivalence of the program with the truss hold against all other choices of profiles; no test builds the program.',
     ['metku/optimization/problems/truss_milp.py', 'metku/frame2d/simple_truss.py', 'metku/optimization/solvers/milp.py',
      'metku/optimization/structopt.py'],
     [('program', 'TrussMILP.create_milp, compatibility_constraints, strength_constraints'), ('data', 'TrussMILP.__init__'),
      ('solver', 'MILP.solve'), ('design', 'TrussMILP.substitute_design')],
     PBT + 'enumeration of all choices of profiles with an independent truss solver and member resistances; change of units',
     'forces in kN (big-M of the solver)')
prop('R01', 'Frames of members are analysed as the structure they describe',
     'For any plane frame of steel members (beams, columns, chords, bars, hinged ends, sections, divisions), supports, '
     'point, line and stepwise loads in any load cases, and load combinations, and after any sequence of changes (section, '
     'node position, load, hinge, buckling length, self-weight, combining again), the load cases contain exactly the given '
     'and the factored loads, and the axial force, shear, moment, displacement, weight and utilisation of every member in '
     'every case are those of the frame as it then is. Maxima over load cases belong to one place of one case; member '
     'coordinates, angles and internal nodes follow the nodes; symmetric nodes and members are paired and share sections; '
     'the exported Robot file describes the same frame.',
     ['inputs', 'histories'], 'all frames, loads, combinations, orders of modification',
     'Only two example frames are run by tests; stale or lost data show up only after particular modifications.',
     ['metku/raami/raami.py', 'metku/raami/frame_member.py', 'metku/raami/frame_node.py', 'metku/raami/frame_loads.py',
      'metku/raami/frame_supports.py'],
     [('model', 'Raami.generate_fem, FrameMember.generate_elements'), ('loads', 'frame_loads.LoadCombination, Raami.add'),
      ('results', 'FrameMember.calc_nodal_forces, get_max_forces'), ('symmetry', 'Raami.symmetry')],
     PBT + 'independent frame solver; random modification histories; parser of the exported file',
     'plane frames; self-weight not with bars; circular sections are not exported')
prop('R02', 'Member design picks the first profile of the list that carries all load cases',
     'For any steel frame and any profile list, limits of width, cross-section class, slenderness and utilisation, the '
     'optimum design of a member (with its symmetry pair) or of a member group chooses the first profile of the list that '
     'satisfies all limits under the forces of all load cases, assigns it to all members of the group, pair and their '
     'elements and to no others; when repeated analysis and design settles, every member carries the forces of the '
     'final frame. The same holds when the profiles of a roof truss or of a portal truss are optimised with the steel grade, '
     'class, utilisation and limits of width asked for each group.',
     ['inputs', 'histories'], 'all frames, trusses, loads, profile lists, limits',
     'The chosen profile depends on all load cases and members at once; tests design one member.',
     ['metku/raami/frame_member.py', 'metku/raami/raami.py', 'metku/sections/steel/catalogue.py'],
     [('member', 'SteelFrameMember.optimum_design'), ('group', 'MemberGroup.optimum_design'),
      ('frame', 'Raami.optimize_members')],
     PBT + 'exhaustive search of the profile list with independent member objects',
     'RHS lists are not searched (too long for every case)')
prop('T01', 'Roof trusses are generated with the asked shape, topology, joints and symmetry',
     'For any span, heights or slope, chord ends, number of divisions, topology (K, N, KT), first diagonal and edge verticals, '
     'the nodes lie on the outline in order from end to end, chord members run through consecutive nodes, and the braces '
     'triangulate the panels without crossing or repeating, so that the pin-jointed truss on its supports is statically '
     'determinate; verticals and the inclination of diagonals are those of the topology; weights are those of the members. '
     'Every node with braces carries one joint of the right kind with exactly its chords and braces, known to its members, '
     'and a truss with equal ends pairs every node, member and joint with its mirror image.',
     ['inputs'], 'all shapes, topologies, numbers of divisions',
     'The generator has many branches (ends, topology, direction) and the faults of one show only in that combination.',
     ['metku/raami/raami_plane_truss.py', 'metku/raami/raami.py'],
     [('topology', 'SlopedTruss.generate_topology'), ('joints', 'SlopedTruss.generate_joints'),
      ('symmetry', 'SlopedTruss.symmetry, Raami.symmetry')],
     PBT + 'planarity, triangulation and rank of the equilibrium matrix as invariants; mirror images; one more division',
     'L1 = L2; chord ends both zero or both positive')
prop('T02', 'Trusses are analysed with the eccentric joints they have, and the joints are designed with those forces',
     'For any roof truss, uniform and stepwise loads (one or several) on the chords in any load cases and combinations, braces as bars or hinged beams, joint '
     'model (no eccentricity, EN 1993 eccentricity, eccentricity elements at the chord faces), positions of the intersection '
     'points of the braces, and after any changes of profiles, intersection points and bottom chord level, the axial forces, '
     'shears, moments and displacements of all members and the shear in the gaps are those of that structure, and the '
     'utilisation of every Y and K joint follows Tables 7.10 to 7.12 of EN 1993-1-8 with those forces and that geometry.',
     ['inputs', 'histories'], 'all trusses, loads, joint geometries, changes',
     'Joint positions depend on the joints of the other chord, profiles and slopes; no test analyses an eccentric truss.',
     ['metku/raami/raami_plane_truss.py', 'metku/raami/frame_loads.py', 'metku/raami/frame_member.py'],
     [('models', 'SlopedTruss.generate_fem, TopChord/BottomChord/TrussBrace.generate_elements'),
      ('geometry', 'TubularKGapJoint.brace_chord_face_x, calc_gap'), ('design', 'TubularYJoint.design, TubularKGapJoint.design')],
     PBT + 'independently constructed joint geometry solved with an independent frame solver; formulas of the standard',
     'joint models need dx > 0; members shorter than the load zones; KT joints are not designed')
prop('T03', 'Portal trusses are analysed and designed as columns and roof truss joined at the column faces',
     'For any symmetric portal of two columns and a roof truss (top chord, or both chords, joined to the columns; any topology, '
     'slope, column profile and base), uniform loads on the chords and uniform or linearly varying loads on the columns in any load cases and combinations, and after '
     'profiles are changed and the joints updated or the model generated anew, the forces and displacements of all members and '
     'the shear in the gaps are those of that one frame with hinges at the column faces, and the utilisation of every member '
     'accounts for the forces found at every one of its nodes.',
     ['inputs', 'histories'], 'all portals, loads, changes of profiles',
     'Columns, truss, joints and loads are generated by different classes; no test analyses a portal truss.',
     ['metku/raami/raami_portal_truss.py', 'metku/raami/raami_plane_truss.py', 'metku/raami/frame_member.py'],
     [('model', 'PortalTruss.generate_fem, update_fem_joint_nodes'), ('loads', 'PortalTruss.generate_uniform_load, add_truss_loads'),
      ('design', 'SteelFrameMember.design')],
     PBT + 'independently constructed frame solved with an independent frame solver; members rebuilt from the forces',
     'fixed bases when only the top chord reaches the columns; eccentricity elements at the columns')
prop('G01', 'Frame2D joins members where they meet and analyses and designs that frame',
     'For any plane frame of Frame2D members (beams with rigid, semi-rigid or hinged ends, columns, members with hinges) added '
     'in any order with supports and point loads on or between the member ends, constant and trapezoidal line loads in global '
     'or member directions, load factors, load cases and self-weight, members are connected exactly where they meet, no load '
     'or support is lost, and member forces, their maxima, displacements and weight are those of that frame, also after '
     'profiles and joint stiffnesses are changed. The utilisation of a member in a load case is that of its forces there, the '
     'optimum design is the first profile that carries all load cases, and the regular frame of given storeys and bays has '
     'exactly its columns, beams and supports.',
     ['inputs', 'histories'], 'all frames, orders of construction, loads, changes',
     'Whether members are joined depends on the order of adding, on rounding of coordinates and on where nodes fall.',
     ['metku/frame2d/frame2d.py'],
     [('joining', 'Frame2D.add_member, FrameMember.point_intersection, FrameMember.add_nodes'),
      ('elements', 'FrameMember.generate_elements'), ('loads', 'LineLoad.add_load, PointLoad.add_load'),
      ('design', 'FrameMember.assign_forces, FrameMember.optimum_design')],
     PBT + 'meeting points from exact rational geometry, independent frame solver, exhaustive search of the profile list',
     'no change of geometry after generation; bars in one element; point loads and supports at least 60 mm from other nodes')
prop('C01', 'Composite members have the stiffness and plastic resistance of their stress blocks',
     'For any concrete class, humidity, notional size and ages the creep coefficient, moduli and strengths are those of EN 1992-1-1; '
     'stud resistance is that of EN 1994-1-1. For any concrete filled tube with four bars, areas, second moments, effective '
     'stiffness, critical load, slenderness and buckling resistance about both axes and the plastic moment are those of the '
     'actual shapes of steel, bars and concrete with rounded corners. For any steel I-beam with a solid or ribbed slab, '
     'transformed-section properties at short and long term, the plastic neutral axis and the plastic moment are those of the '
     'stress blocks, wherever the axis lies.',
     ['inputs'], 'all dimensions, grades, bar positions, spans, slab depths and ages',
     'There are no tests of composite members; which branch governs depends on the ratio of the parts.',
     ['metku/sections/composite/composite_column.py', 'metku/sections/composite/composite_beam.py',
      'metku/eurocodes/en1992/constants.py', 'metku/eurocodes/en1994/en1994_1_1.py'],
     [('columns', 'ConcreteFilledTube.EIeff, NbRd, MplRd'), ('beams', 'CompositeIBeam.EIcom, plastic_neutral_axis, MplRd'),
      ('creep', 'Concrete.creep_coefficient'), ('studs', 'ShearStud.PRd')],
     PBT + 'numerical integration of the shapes and search of the axis that gives equilibrium; formulas of the standards',
     'four bars; axis of columns not through a bar; axis of beams not in the bottom flange')
prop('P01', 'Cold-formed profiles, sheeting and screws follow their geometry and EN 1993-1-3',
     'For any open thin-walled polyline (any orientation, thicknesses, walls subdivided) area, centroid, second moments, principal '
     'axes, torsion constant and modulus, shear centre and warping constant are those of the centre line. Z- and C-profiles with any '
     'flanges, lips and corner radii have the gross properties, notional widths, average yield strength and symmetry of their '
     'rounded shape. Local transverse resistance of webs and of sheeting, edge stiffener buckling factor, screw '
     'spacing and resistance, rotational stiffness coefficients and the shear stiffness of sandwich panels with screws are those '
     'of the rules for every combination of parameters.',
     ['inputs'], 'all polylines, profiles, sheet geometries, screw positions and load directions',
     'There are no tests of cold-formed members; sign, order and branch errors depend on the geometry.',
     ['metku/eurocodes/en1993/en1993_1_3/open_prof.py', 'metku/eurocodes/en1993/en1993_1_3/cf_profs.py',
      'metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py', 'metku/eurocodes/en1993/en1993_1_3/trapezoidal.py',
      'metku/sandwich/sandwich.py'],
     [('sections', 'OpenProf, ZSection, CSection'), ('webs', 'RwRd, k factors'), ('rules', 'CD_A, screw functions, fya'),
      ('sheeting', 'Trapezoidal.RwRd_two_webs'), ('panels', 'SandwichPanel stiffness methods')],
     PBT + 'numerical integration of thin-walled centre lines, independently derived shear centre, formulas of EN 1993-1-3',
     'gross sections; effective sections of cold-formed profiles are drafts')
prop('W01', 'Timber sections, fire and members follow their geometry and EN 1995',
     'For any rectangular, single tapered, ridged, belly, curved or pitched cambered section with any fire protection on each side, '
     'shared or given later, the effective depth, width, area and moduli at every place and every minute of the fire are those left by the '
     'charring of EN 1995-1-2, also after the dimensions change. For any strength class, service class and load duration, strengths, '
     'utilisation of sections (also with reduced shear at supports), slenderness, buckling, lateral buckling, tapered edges '
     'and apex zones are those of EN 1995-1-1, whatever the signs of the moments and wherever the supports are; in a frame the '
     'member receives the forces and displacements of its varying stiffness.',
     ['inputs'], 'all dimensions, shapes, strength classes, protections, fire durations, internal forces and support positions',
     'There are no tests of timber; sign, order and branch errors depend on the shape, the forces and the times.',
     ['metku/sections/timber/timber_section.py', 'metku/structures/timber/timber_member.py',
      'metku/eurocodes/en1995/en1995_1_1.py', 'metku/eurocodes/en1995/en1995_1_2.py', 'metku/eurocodes/en1995/fire_protection.py',
      'metku/materials/timber_data.py', 'metku/frame2d/frame2d.py'],
     [('fire', 'd_char_n, TimberSection.H/B, FireProtection'), ('shapes', 'TaperedSection subclasses'), ('members', 'TimberMember check methods'),
      ('apex', 'k_l, k_p, k_dis, k_vol, V'), ('frames', 'TimberFrameMember')],
     PBT + 'integral of the charring rates, geometry of the shapes, torsion by series, formulas of EN 1995',
     'given effective length factors; symmetric ridge and curved beams in the apex rules; support pressure and bracing outside')
prop('K01', 'Fabrication costs are those of the work, whatever was priced before',
     'For any sequence of jobs, workshop parameters, paint, steel grade and thickness, a cost centre (blasting, cutting, painting, '
     'assembly welding, sawing) prices each job by its productive and non-productive time, labour, equipment, real estate, energy and '
     'consumables, independently of the jobs priced before. The price of a plate, fin plate, end plate connection (bolts, nuts, washers, '
     'holes, welds, stiffeners), truss member, welded joint and roof truss is the sum of its material and of the jobs its current '
     'dimensions need, also after it was modified; totals equal the sum of the parts and weights follow the geometry.',
     ['inputs', 'histories'], 'all jobs, plates, bolt sizes, connections, roof trusses of square tubes and sequences of modifications',
     'Costs are objectives of the optimisation; no test prices anything, and stale state only shows when items are priced again.',
     ['metku/cost/workshop.py', 'metku/cost/cost_data.py', 'metku/structures/steel/plates.py',
      'metku/structures/steel/fin_plate_joint.py', 'metku/structures/steel/end_plate_joint.py',
      'metku/raami/raami_plane_truss.py', 'metku/raami/frame_member.py'],
     [('centres', 'BlastingCost/CuttingCost/PaintingCost/AssemblingCostWeld/SawingCost.cost'), ('plates', 'RectPlate.cost'),
      ('connections', 'FinPlateJoint.cost, EndPlateJoint.cost'), ('trusses', 'SlopedTruss.cost, TrussBrace.cost, TubularJoint.cost')],
     PBT + 'stateless reference of the cost centres (Haapio 2012), geometry of the parts',
     'beam welding and drilling centres are drafts; square tubes in trusses')
