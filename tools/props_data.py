FEMF = ["metku/framefem/framefem.py", "metku/framefem/elements/ebbeam.py", "metku/framefem/elements/rod.py",
        "metku/framefem/elements/springs.py"]

prop("F01", "Linear frame analysis returns the exact elastic response",
     "For every stable plane structure of beam elements (with or without moment hinges at element ends), truss rods and linear springs, linear "
     "static analysis gives the displacements and the member end forces (axial, shear, moment) of exact Euler-Bernoulli "
     "theory for nodal loads and for uniform or linearly varying member loads in global or member directions with any load factor. "
     "Nodes are in equilibrium, supported degrees of freedom do not move, response is linear in the loads, and splitting a member into more elements "
     "does not change it. The result does not depend on the support method, on element order, or on analysing several load cases "
     "together or one by one, and only the loads and supports of the analysed load case take part.",
     ["inputs", "configurations"],
     "all stable structures, supports, hinges, loads, load factors, load-case sets and both support methods",
     "the only FEM tests in the repository do not even import; a test samples one structure, the property quantifies over all of them",
     FEMF,
     [("assembly, supports, solution, distribution", "framefem.py FrameFEM.linear_statics/global_stiffness_matrix/global_load_vector"),
      ("element stiffness, hinges, fixed-end forces, end forces", "ebbeam.py EBBeam"), ("rods", "rod.py"), ("springs", "springs.py")],
     [("u", "nodal displacements per load case", "FEMNode.u"), ("fint", "end forces per load case", "Element.fint")],
     ["nodal displacements", "element end forces"],
     "runtime monitors with an independent reference frame solver on random structures, plus equilibrium, linearity and mesh-refinement oracles",
     "random exploration; reference solver is independent (extra hinge unknowns, Gauss integration). Lengths in mm; structures the reference finds ill-conditioned are skipped. Trusts numpy linear algebra.")

prop("F02", "Re-analysis after any edit equals analysing the edited model from scratch",
     "After any sequence of edits to a plane frame model (sections, materials, load values and factors, loads added or removed, hinges set or "
     "released again, nodes moved, supports, members or load cases added) mixed with analyses, the next linear analysis gives the displacements and "
     "member forces of a model built from scratch in the edited state. Repeating an analysis without an edit changes nothing.",
     ["histories"],
     "all edit/analysis histories of a model object",
     "history dependence (caches, stored fixed-end forces, stale displacements) only shows in multi-step sequences; tests build a model and analyse it once",
     FEMF,
     [("stiffness and load assembly from current state", "framefem.py FrameFEM.linear_statics"), ("hinge handling", "ebbeam.py EBBeam.local_stiffness_matrix"),
      ("fixed-end force store", "ebbeam.py EBBeam.equivalent_nodal_loads")],
     [("floc", "fixed-end forces of line loads", "Element.floc"), ("Krel", "condensation blocks", "EBBeam.Krel"), ("u", "displacements", "FEMNode.u")],
     ["nodal displacements", "element end forces"],
     "history monitor: random edit sequences on a live model, each analysis compared with a from-scratch reference",
     "random exploration of edit sequences of 2-8 steps over all edit kinds; same reference as F01.")

prop("F03", "Buckling load factors and second order response are those of stability theory",
     "For rigidly connected plane beam structures, linear buckling analysis returns the requested number of smallest positive critical load factors, "
     "including those below one, together with modes that satisfy the eigenvalue equation and the supports; factors scale inversely with the load and meshed columns reproduce the Euler loads. "
     "Below the critical load, second order elastic analysis (hinges allowed, uniform member loads transverse to the member) gives displacements and end forces of the exact beam-column "
     "theory for compressed members and first order stiffness for members in tension. Both can be repeated on the same model with the same result.",
     ["inputs", "histories"],
     "all rigid-jointed beam structures and load levels (buckling); all sub-critical load levels, tension/compression patterns and hinges (second order)",
     "no running test calls either analysis; the failure modes depend on load level and axial-force pattern",
     FEMF,
     [("eigenvalue problem and mode distribution", "framefem.py FrameFEM.linear_buckling"), ("geometric stiffness", "ebbeam.py EBBeam.local_geometric_stiffness_matrix"),
      ("stability functions", "ebbeam.py EBBeam.local_second_order_stiffness_matrix"), ("second order solution", "framefem.py FrameFEM.second_order_analysis")],
     [("load_factors/buckling_modes", "critical factors and modes", "FrameFEM"), ("u2/fint2", "second order response", "FEMNode/Element")],
     ["load factors", "node.v", "node.u2", "element.fint2"],
     "runtime monitors against an independent eigenproblem, Euler loads and exact beam-column solutions",
     "random exploration; axial forces constant per element; hinged elements are outside the buckling claim (no consistent geometric stiffness in the code base).")

prop("F04", "Space frame analysis returns the exact elastic response",
     "For every stable space frame of beam elements under nodal forces and moments, linear static analysis gives the displacements, rotations and member end forces "
     "(axial, shear, torsion and both bending moments, in magnitude) of exact Euler-Bernoulli / Saint-Venant theory. The major axis is oriented by the given reference point, or by default by the global z direction "
     "(global x for members parallel to it), for members of every direction.",
     ["inputs"],
     "all member directions, orientations, profiles, supports and nodal loads",
     "no test runs the 3D element at all; orientation errors only show for particular directions",
     FEMF[:2],
     [("3D element stiffness and orientation", "ebbeam.py EBBeam3D"), ("assembly", "framefem.py FrameFEM.linear_statics")],
     [("nref", "orientation point", "EBBeam3D.nref")],
     ["nodal displacements", "element end forces"],
     "runtime monitors with an independent space-frame reference solver",
     "random exploration; member loads in 3D are unfinished in the code base and outside the claim; signs of shear/moment components are not judged.")

SECF = ["metku/sections/steel/steel_section.py", "metku/sections/steel/ISection.py", "metku/sections/steel/RHS.py",
        "metku/sections/steel/CHS.py", "metku/sections/steel/wi.py", "metku/sections/steel/wq.py"]

prop("S01", "Section properties equal the geometry of the drawn cross-section",
     "For every rolled I (catalogue or own dimensions), RHS/SHS, CHS, welded I (mono-symmetric too) and WQ section, area, second moments of area, elastic and plastic moduli, "
     "perimeter, shear area, radii of gyration, neutral axes, section factor, mass and cost are those of the outline, and torsion and warping constants are those of the published formulae. "
     "RHS and welded I sections keep this after any sequence of dimension changes, the rotate flag swaps the axes and nothing else, and every catalogue entry gives a section "
     "with the dimensions of its name and the published mass. The profile tables in metku.profiles give the same dimensions and properties.",
     ["inputs", "histories"],
     "all catalogue profiles, all geometrically sensible dimensions, all sequences of dimension changes",
     "tests check the area of a few sections; every family, dimension and edit history needs an integral over the outline",
     SECF + ["metku/sections/steel/catalogue.py", "metku/profiles/steel/isections.py"],
     [("cross-section formulae", "ISection.py, RHS.py, CHS.py, wi.py, wq.py"), ("derived quantities and rotate", "steel_section.py SteelSection"),
      ("catalogue", "catalogue.py"), ("profile tables", "metku/profiles/steel")],
     [("A, I, Wel, Wpl, Ashear, Au, It, Iw", "section properties", "SteelSection")],
     ["properties of the section object"],
     "runtime monitors comparing section objects with numerical integration over the outline, along random dimension-edit histories",
     "random exploration plus the whole catalogue; Prandtl finite-difference solution for sampled torsion constants.")

prop("S03", "Section class and cross-section resistance follow EN 1993-1-1",
     "For rolled and own I-sections, RHS/SHS, CHS and doubly symmetric welded I sections of every steel grade and every sign combination of axial force and bending moment, and for WQ box beams in compression or in sagging bending (with tension), the section class is that of EN 1993-1-1 Table 5.2 "
     "(combined forces with plastic compression zone and elastic stress ratio). Axial, shear and bending resistances are those of 6.2 for that class, and the section utilization ratios and the "
     "moment-axial force interaction for class 1-3 equal the definitions. All of them reflect the current forces and material of the object, whatever was set or queried before.",
     ["inputs", "histories"],
     "all sections, steels, internal force combinations, and sequences of force/material changes on one object",
     "class limits are discontinuities that a handful of sections in a test does not straddle; sign combinations and object history are not sampled",
     SECF[:5] + ["metku/eurocodes/en1993/en1993_1_1.py"],
     [("class of parts", "en1993_1_1.py internal_part_*/outstand_part_*/CHS_class"), ("class of section", "steel_section.py section_class, flange_class/web_class_*"),
      ("resistances and utilization", "steel_section.py *_resistance, section_resistance")],
     [("Ned, Med, Ved, material", "design forces and steel", "SteelSection")],
     ["section_class()", "NRd/VRd/MRd", "section_resistance()"],
     "runtime monitors against an independent transcription of Table 5.2 and section 6.2 along force and material histories",
     "random exploration concentrated at the class limits. Welded sections under combined axial force and moment, unsymmetric welded sections, class 4 moment resistance of rolled/RHS sections and z-axis interaction are not judged.")

prop("P01", "Plate buckling, shear buckling and patch loading follow EN 1993-1-5",
     "Buckling factors, reduction factors and effective widths of internal and outstand plates, the shear buckling resistance with the web and flange contributions for every stiffener spacing and end post, and the "
     "transverse (patch) load resistance equal EN 1993-1-5 and respect its bounds: reduction factors in (0,1], falling with slenderness, shear resistance never above the plastic one. "
     "The effective area in compression and the effective second moment of area, section modulus and class 4 bending resistance of doubly symmetric welded I sections are those of the effective cross-section. "
     "Repeating a query on the same section gives the same value.",
     ["inputs", "histories"],
     "all plate slendernesses and stress ratios, welded section dimensions, steels, stiffener spacings, load types and query sequences",
     "piecewise rules with many branches and an iterative effective section with state; tests do not touch them",
     ["metku/eurocodes/en1993/en1993_1_5.py", "metku/sections/steel/wi.py"],
     [("plate rules", "en1993_1_5.py"), ("effective section", "wi.py WISection.effective_*"), ("shear and patch loads", "wi.py shear_buckling_resistance/transverse_load_resistance")],
     [("Ned, Med", "moments and forces entering flange contribution", "WISection")],
     ["returned factors, widths and resistances"],
     "runtime monitors against an independent transcription of EN 1993-1-5 plus physical relations and repeat-query monitors",
     "random exploration; shear buckling is not judged where the flanges are exhausted by the moment (the code raises NotImplementedError).")

prop("M01", "Member buckling resistances follow stability theory and EN 1993-1-1 6.3",
     "For steel members of rolled, own or welded I-sections, RHS/SHS and CHS of any steel, length and buckling length factors, the elastic critical forces (flexural about both axes, torsional), the slendernesses, the buckling curves and the flexural, "
     "torsional and lateral-torsional buckling strengths (general and specific method) equal elastic stability theory and EN 1993-1-1 6.3, never exceed the squash and Euler loads, and follow changes of length, buckling length and profile. The elastic critical moment for any coefficients, restraint "
     "factors and load height is the closed-form one and agrees with a Ritz solution of the stability problem, also for cantilevers (Andrade et al.) with end or uniform load at any flange. "
     "The rule functions (interaction factors of Table B.1, moment factors of Table B.3, sway imperfection, reduction factors) equal the standard for every argument.",
     ["inputs", "histories"],
     "all profiles, steels, lengths, buckling lengths, moment shapes and load heights",
     "tests check one critical moment and one LTB strength; curve selection, plateau limits and moment shapes are piecewise rules over a continuum",
     ["metku/structures/steel/steel_member.py", "metku/eurocodes/en1993/en1993_1_1.py"] + SECF[1:5],
     [("critical loads and strengths", "steel_member.py SteelMember.ncrit/buckling_strength/LT_buckling_strength/mcrit*"),
      ("curve selection", "section constructors imp_factor"), ("rules", "en1993_1_1.py")],
     [("length, lcr, profile", "member data", "SteelMember")],
     ["NbRd, MbRd, Ncr, Mcr", "factors kyy, kzy, kzz, Cm"],
     "runtime monitors against independent rule transcriptions, bounds of stability theory and a Ritz eigenvalue solver",
     "random exploration; mono-symmetric critical moments are not judged; Ritz agreement within 3 % (udl) and 4.5-10 % (cantilever fits).")

prop("M02", "Member verification covers every section and stability check of current state",
     "Designing a steel member returns the largest utilization among the cross-section checks at every given location, flexural buckling about both axes for the largest compression, the beam-column interaction of EN 1993-1-1 (6.61)/(6.62) Method B, and lateral-torsional buckling if the member is "
     "susceptible to it; stability checks vanish when there is no compression (buckling, interaction) or no moment (interaction). The separate checks give the same numbers as the design run and store them per location and per stability mode. "
     "Results depend only on the current forces, length, buckling lengths, profile and sway setting, not on earlier checks.",
     ["inputs", "histories"],
     "all force distributions along the member, all histories of edits and checks on one member object",
     "the member keeps forces in its profile, so wrong results show only after particular sequences; interaction rules combine several sign and class cases",
     ["metku/structures/steel/steel_member.py", "metku/sections/steel/steel_section.py", "metku/eurocodes/en1993/en1993_1_1.py"],
     [("verification", "steel_member.py SteelMember.design/check_*"), ("forces per location", "SteelMember.sections")],
     [("sections", "internal forces and ratios per location", "SteelMember.sections"), ("stability", "ratios per stability mode", "SteelMember.stability"), ("profile.Ned/Med", "scratch forces of the section", "SteelSection")],
     ["design()", "check_sections/check_buckling/check_LT_buckling/check_beamcolumn"],
     "history monitor: random sequences of edits and checks on one member, every result compared with an independent evaluation",
     "random exploration; sections of class 4 and welded sections are not judged; minor-axis moments enter only as the code base documents (choice of kzy).")

RAAMI = ["metku/raami/raami.py", "metku/raami/frame_member.py", "metku/raami/frame_loads.py", "metku/raami/frame_node.py", "metku/raami/frame_supports.py"]

prop("R01", "Frame model results are the exact response of the frame as it currently is",
     "For every stable plane frame assembled from frame nodes, members (with end hinges or as bars), supports and loads, analysis of any set of load cases gives every member's axial force, shear, moment and displacement at all its division points as exact elastic theory does for the frame in its current state, "
     "whatever sequence of edits (profile, node position, hinge, load, scaling factor, self weight, support, new member) preceded it. Design forces and extreme forces of a member are the ones of largest absolute value, and the smallest and largest, of these results, "
     "and frame weight and member geometry follow the current state; every added load is present exactly once in exactly its own load case and self weight can be added, repeated and removed again.",
     ["inputs", "histories", "configurations"],
     "all stable plane frames, all load sets, all edit and analysis histories through the frame interface",
     "the repository has a few single-frame tests; state is spread over frame, members, nodes and the finite element model, so errors need particular topologies or histories",
     RAAMI + ["metku/framefem/framefem.py"],
     [("model generation", "raami.py Raami.generate_fem, FrameMember.generate_elements"), ("results", "FrameMember.calc_nodal_forces/calc_nodal_displacements/get_max_forces"), ("loads", "Raami.add*, frame_loads.py")],
     [("nodal_forces, nodal_displacements", "results per load case", "FrameMember"), ("NEd, VzEd, MyEd", "design forces", "FrameMember"), ("loads, load_cases", "load registry", "Raami")],
     ["structural_analysis/calculate", "member.nodal_forces, nodal_displacements, get_max_forces"],
     "history monitor: random frames and random edit histories, every result compared with an independent frame solver on plain data",
     "random exploration; edits other than profiles and moved nodes are followed by regenerating the model as the interface requires; line loads on bar members are not supported by the code base and not generated.")

prop("R02", "Load combinations are the prescribed factored superposition of their load cases",
     "A combination of load cases of a frame acts exactly like the sum of its loads each times the load's own scaling factor and the combination factor of EN 1990: 1.15 for permanent and 1.5 for variable loads in the ultimate limit state, 1.0 in the serviceability limit state, and additionally 0.7 (live, snow) or 0.6 (wind) for loads of variable cases other than the leading one, which is the first non-permanent case. "
     "The combined forces and displacements equal the same superposition of the case results. "
     "Combining leaves the source loads and cases untouched, and combining again, also after loads were edited or added, replaces the earlier factored loads instead of adding to them.",
     ["inputs", "histories"],
     "all load sets, registration orders and names, case types, combination types and orders, and repeated combination",
     "there is no unit test of combinations; mistakes depend on the order of cases, equal names, scaling factors and repetition",
     RAAMI,
     [("factors", "frame_loads.py Load.factored, LoadCase.combine, LoadCombination"), ("registry", "raami.py Raami.add_loadcombination/add_pointload/add_lineload")],
     [("f", "load scaling factor", "Load"), ("loads", "frame's loads by name", "Raami")],
     ["loads of the frame", "member forces of the combination id"],
     "history monitor: factored loads and results of random combinations compared with an independent solver and with superposition of the frame's case results",
     "random exploration; accidental combinations are not judged (the code base defines no factors for them).")

prop("R03", "Frame design and profile selection follow the forces, rules and catalogue",
     "After analysis every member's utilization for a load case is that of the member verification with the member's current profile, length, buckling lengths, sway setting and current forces, and its resistance flag compares it with the allowed value. "
     "Selecting a profile picks the first profile of the catalogue family, in catalogue order, that satisfies the width, section class and slenderness limits and the utilization limit for every load case and every member of the group or symmetry pair, all of which then share it. "
     "Optimising the frame alternates analysis and selection until no profile changes, after which all members satisfy the limits under the forces of the final frame.",
     ["inputs", "histories", "configurations"],
     "all frames, load cases, groups and symmetry pairs, all design and selection histories",
     "tests select profiles for one or two fixed frames; wrong selections depend on stale forces, on groups and on the order of load cases",
     RAAMI + ["metku/structures/steel/steel_member.py", "metku/sections/steel/catalogue.py"],
     [("verification", "frame_member.py SteelFrameMember.design"), ("selection", "SteelFrameMember.optimum_design, MemberGroup.optimum_design, profile_list, catalogue.make_section"), ("optimisation", "raami.py Raami.optimize_members, symmetry")],
     [("utilization, resistance_check", "design results", "FrameMember"), ("cross_section", "profile shared by member, elements, group and symmetry pair", "FrameMember")],
     ["member.utilization, resistance_check, cross_section", "optimum_design return value"],
     "differential monitor: independent catalogue search driven by an independent frame solver, and separately built member objects",
     "random exploration; steel grade S355 in selection (the interface's default); cases with a utilization within 2e-5 of the limit are skipped; when no profile is sufficient the selection is not judged.")

prop("T01", "Roof trusses have the intended geometry and the exact elastic response",
     "For symmetric roof trusses (K, N and KT webs; heights or slope given; bottom chord reaching the ends or set in) the top chord nodes lie on the roof slopes with a node at the ridge, the bottom chord nodes on the horizontal bottom chord between its given ends, "
     "chord members join consecutive nodes, the web is symmetric, does not cross and connects top to bottom chord, and total weight is that of the drawn members. "
     "Brace intersection points, chord-face points, gaps and eccentricities of K joints follow the local joint coordinates, nodes and profiles, and a joint coordinate set on one joint is mirrored to its symmetry joint and to no other joint. "
     "After generating any of the three FEM idealisations (centreline, EN 1993 eccentricity element, chord-face elements with gap elements), as often and in whatever order, the analysis gives the member forces and displacements of exact elastic theory for uniform, zone-wise uniform, self-weight and nodal loads and load combinations.",
     ["inputs", "configurations", "histories"],
     "all web types, panel counts, heights, overhangs, profiles, joint coordinates, FEM idealisations, loads and edit histories",
     "no running test builds a truss; each idealisation, web type and joint position takes its own code path and only the analysed result shows an error",
     ["metku/raami/raami_plane_truss.py", "metku/raami/raami.py", "metku/raami/frame_member.py", "metku/raami/frame_loads.py"],
     [("topology", "raami_plane_truss.py SlopedTruss.generate_topology"), ("FEM idealisations", "SlopedTruss.generate_fem, TopChord/BottomChord/TrussBrace.generate_elements"),
      ("joints", "TubularKGapJoint"), ("loads", "SlopedTruss.generate_uniform_load, generate_piecewise_uniform_load")],
     [("xp, yloc, xloc", "joint coordinates", "TubularKGapJoint"), ("fem_nodes, fem_elements", "FEM objects of joints and members", "TubularJoint, FrameMember")],
     ["node coordinates, joint gap and points", "member.nodal_forces, nodal_displacements"],
     "differential monitor: independent geometric description and frame model of the truss on random edit histories",
     "random exploration; symmetric trusses with two equal halves; the chord-face idealisation is only used for bottom chords set in from the supports and with top chord loads; displacements of a brace are listed from its start node.")

prop("J01", "Welded hollow-section joints get the resistances of EN 1993-1-8",
     "For K gap, Y and X joints between rectangular or square hollow sections of any steel grade, chord force and moment, brace sense, angle, gap and width ratio, the chord face, chord shear, side wall, brace and punching "
     "shear resistances, the chord stress factor, the forces and angles of the compression and tension brace and in the gap, and the eccentricity are those of EN 1993-1-8 Tables 7.11 and 7.12, "
     "with the strength reduction of high-strength grades. The design utilisation is force over the governing resistance (interpolated between width ratios 0.85 and 1.0 for Y and X joints) and includes the chord in the gap of a K joint. "
     "It follows any later change of forces, angle, gap or profiles, holds for members given as profiles or as steel members, and holds for K and Y joints of an analysed roof truss with the forces of the requested load case and the current FEM idealisation.",
     ["inputs", "configurations", "histories"],
     "all joint kinds, profiles, grades, forces, angles, gaps, and change histories of joints and trusses",
     "no test builds a joint; each failure mode has its own branch by sense, width ratio, grade and gap",
     ["metku/eurocodes/en1993/en1993_1_8/rhs_joints.py", "metku/raami/raami_plane_truss.py"],
     [("resistances", "rhs_joints.py RHSKGapJoint, RHSYJoint, RHSXJoint"), ("truss joints", "raami_plane_truss.py TubularKGapJoint.design, TubularYJoint.design"), ("plane geometry", "rhs_joints.py Line, eccentricity, rotate")],
     [("N0, M0, gap, angles", "joint data", "RHSJoint"), ("utilization", "per load case", "TubularJoint")],
     ["resistances per mode", "design()", "utilization"],
     "differential monitor: formulas of the standard written independently, random joints, change histories and analysed trusses",
     "random exploration; braces of a K joint have opposite senses, width ratio at most 1. The plastic shear of the chord may use either shear area; the chord is checked with N0 or the gap force. KT joints have no design.")

OPT = ["metku/optimization/structopt.py", "metku/optimization/variables.py", "metku/optimization/constraints.py", "metku/optimization/objective.py", "metku/optimization/opt_functions.py"]

prop("O01", "Evaluating an optimization problem reflects exactly the given values",
     "Evaluating the objective or a constraint of an optimization problem at a point gives its value for exactly those variable values, whatever was evaluated, substituted, locked, freed or analysed before: "
     "every target property of every target object has the (scaled, profile, index-selected or function-mapped) value of its variable, objects that are no target are untouched, locked variables keep their value, and functions that need a structural analysis see "
     "results of the structure with the current values for the load case they need, without needless repetition for the same values. "
     "Lists of constraints, their values, feasibility, bounds, potentially active sets, allowed and neighbouring values of discrete variables, variable groups and the binary reformulation of profile selection agree with the problem as defined.",
     ["inputs", "histories", "configurations"],
     "all problems (kinds of variables, targets, constraints, analyses) and histories of evaluation, substitution and locking",
     "tests evaluate two or three fixed problems once; stale analysis results and targets depend on the evaluation history",
     OPT + ["metku/optimization/variable_group.py", "metku/optimization/constants.py"],
     [("substitution", "variables.py Variable.substitute, IndexVariable, CrossSectionVariable; structopt.py OptimizationProblem.substitute_variables"), ("evaluation", "constraints.py, objective.py, structopt.py fea"), ("reformulation", "opt_functions.py index2binary")],
     [("X, fea_done", "current point and analysis", "OptimizationProblem"), ("value, locked", "variable state", "Variable")],
     ["objective and constraint values", "target attributes", "constraint lists and feasibility"],
     "history monitor: independent model of problem, variables and analysed state checked after every operation",
     "random exploration; out-of-bounds points are only judged where the code clamps consistently; overlapping binary section variables on one object are excluded.")

prop("O02", "Derived optimization models agree with the problem they are derived from",
     "Penalty, barrier and augmented Lagrangian functions and multiplier updates have the values given by their definition from objective and constraints of every type. "
     "Linearization returns the first-order model of objective and every (or every potentially active) constraint with respect to the free variables, including locked, index and analysis-dependent ones, and leaves the problem as it was. "
     "CONLIN and MMA approximations agree with the original function and its gradient at the expansion point, are convex, and the approximate problem keeps variables, bounds and linear constraints; MMA asymptotes follow the iteration history. "
     "The discrete neighbourhood consists of exactly the combinations of the nearest allowed values.",
     ["inputs", "configurations"],
     "all problems, constraint types, locked sets, points, feasible or not",
     "no test covers them; errors depend on constraint type, sign of derivatives, locked variables",
     OPT,
     [("penalties", "structopt.py exact_penalty_fun, exterior_penalty_fun, barrier_fun, augmented_lagrangian"), ("linearization", "structopt.py OptimizationProblem.linearize, opt_functions.py Linearize"), ("approximations", "structopt.py conlin, mma; opt_functions.py conlin_fun, mma_fun, MMAFunction"), ("neighbourhood", "structopt.py discrete_neighborhood")],
     [("lambda", "multipliers", "OptimizationProblem"), ("L, U", "asymptotes", "MMAProblem")],
     ["function values and gradients", "A, B, df, fx", "neighbour points"],
     "differential monitor: definitions evaluated from the problem data with analytic derivatives",
     "random exploration; the barrier is the inverse barrier; points with ambiguous ties are skipped.")

prop("O03", "Solvers return allowed, consistent and optimal solutions",
     "The point an optimization solver returns lies within the bounds of the free variables, takes allowed values for integer, index, binary and discrete variables, and the returned objective value is the value of the objective at that point with locked variables at their locked values; "
     "a solution claimed feasible satisfies the constraints of every type and an infeasible linear problem is not claimed feasible. Linear and mixed-integer linear problems and branch and bound with exact relaxations reach the true optimum; "
     "sequential linear, mixed-integer sequential linear, SQP, trust region and MMA methods reach the optimum of convex problems and of sizing problems within their tolerance. "
     "The iteration history holds each iterate with its objective value and the best feasible iterate is returned; population methods return the best individual they evaluated; solving leaves bounds, locks and constraints of the problem as they were.",
     ["inputs", "configurations", "histories"],
     "all problems (kinds of variables, constraint types and senses, locked variables, feasible or not) and starting points",
     "tests run the solvers on one or two fixed problems; wrong signs, index mix-ups with locked variables or premature pruning only show on other problems",
     OPT + ["metku/optimization/solvers/%s.py" % n for n in ("optsolver", "lp", "milp", "slp", "mislp", "slsqp", "trust_region", "mma", "bnb", "pso", "ga", "steepest")],
     [("linear solvers", "solvers/lp.py, milp.py"), ("sequential methods", "solvers/slp.py, mislp.py, mma.py, slsqp.py, trust_region.py"), ("branch and bound", "solvers/bnb.py"), ("populations", "solvers/pso.py, ga.py"), ("history", "solvers/optsolver.py OptSolver.solve")],
     [("xvals, fvals", "iteration history", "OptSolver"), ("best_x, best_f, feasible", "claimed solution", "OptSolver"), ("lb, ub of variables", "branching state", "BnB")],
     ["returned point and value", "feasibility claim", "history", "problem state afterwards"],
     "claims of the solver recomputed from the problem data; optimum by scipy linprog with enumeration, KKT construction or closed form",
     "random exploration; tolerances of the methods; MMA and COBYLA optima within 10 % of the scale; VNS, two-phase, ALM, CONLIN, SLQP and ACO solvers are not covered.")

prop("O04", "Truss optimization problems describe the truss and give its optimum",
     "The optimization problems built for a pin-jointed truss describe that truss: the solution of the linear program is a minimum-volume design whose forces are in equilibrium in every load case within stress and area bounds; "
     "the mixed-integer programs select, from common or per-member profile lists, the lightest profiles whose elastic forces and displacements are within resistance (section and buckling) and displacement bounds in every load case, report the forces and displacements of that design, and have no solution only if no selection is feasible; "
     "in topology problems the lightest subset of members obeying the node rules (members of a vanished node vanish, at least two members at a free and one at a supported node, at least two supported nodes, enough members for the degrees of freedom) and one profile per group is found. "
     "The sizing problem's objective is the truss weight, its stress, strength, buckling and displacement constraints and feasibility are those of the analysed design, full stressing and scaling give the areas they promise, and problems do not share state.",
     ["inputs", "configurations", "histories"],
     "all trusses, load cases and their ids, profile lists, bounds and member groups",
     "no test builds these problems; index mix-ups between members, profiles and load cases or wrong scaling still give a solvable problem with a plausible answer",
     ["metku/optimization/problems/truss_optimization.py", "metku/optimization/problems/truss_milp.py", "metku/frame2d/simple_truss.py", "metku/framefem/framefem.py", "metku/optimization/structopt.py"],
     [("linear and mixed-integer programs", "problems/truss_optimization.py truss_lp, truss_milp"), ("sizing and topology MILP", "problems/truss_milp.py TrussMILP"), ("sizing problem", "problems/truss_optimization.py TrussOptimization"), ("statics matrix", "framefem.py FrameFEM.statics_matrix")],
     [("vars, cons", "variables and constraints", "OptimizationProblem"), ("A, profile, active", "design in the truss", "SimpleTrussMember")],
     ["optimum, forces and displacements", "feasibility", "constraint values", "members after substitution"],
     "differential monitor: independent linear program, enumeration of all profile assignments with an own stiffness solver, closed-form constraints",
     "random exploration; small trusses (up to five or six members); borderline resistances within 2 % of the bound are not decided; buckling resistance of a member from a fresh SteelMember (checked by M01).")

prop("E01", "Combined member loads are the governing EN 1990 combination",
     "Combining any set of permanent, area, imposed, snow and wind loads gives, for every load id, the loads of the governing combination of EN 1990 with the Finnish National Annex: ultimate limit state with consequence class factor, characteristic, frequent, quasi-permanent and accidental, "
     "with the combination factors of the building category and of the snow load level, the reduction of imposed loads over large areas and conversion of area loads by spacing. "
     "Governing means that no other choice of leading variable load gives a larger combined load. The split result adds up to the combined one, the loads given by the user are not changed and a repeated evaluation gives the same result, whatever was added or evaluated before.",
     ["inputs", "histories"],
     "all sets of loads, categories, consequence classes, spacings and histories of adding, reducing and evaluating",
     "no test combines loads; which variable load leads depends on the interplay of magnitudes and factors",
     ["metku/eurocodes/en1991/en1991.py"],
     [("combinations", "en1991.py Combiner, MultiCombiner"), ("factors", "en1991.py Load classes")],
     [("loads", "added loads", "Combiner"), ("comb_factors", "factors", "load objects")],
     ["x and y load per id", "split result", "user load objects"],
     "differential monitor: all candidate combinations of EN 1990 enumerated from the load data",
     "random exploration; results rounded to 2 decimals by the code; no favourable permanent load (0.9 G), z direction not used, snow factors given to the constructor are replaced by the code.")

prop("E02", "Wind velocities, pressures and zones follow EN 1991-1-4",
     "Basic and mean wind velocity, turbulence and peak velocity pressure follow EN 1991-1-4 with the Finnish National Annex for every height and terrain category and grow with height. "
     "Wall and flat roof zones have the areas of the standard for every proportion of building and wind direction and fill the surface, "
     "and wall pressures, flat roof pressures (sharp eaves) and the coefficients of monopitch roofs for wind on the low and the high eave are those of the standard, interpolated between table rows and continuous over their limits.",
     ["inputs"],
     "all building dimensions, heights, terrain categories, wind directions and roof slopes",
     "no test computes wind loads; every zone arrangement and table interval is its own branch",
     ["metku/eurocodes/en1991/en1991_1_4.py"],
     [("velocity and pressure", "en1991_1_4.py mean_wind_velocity, turbulence_intensity, peak_velocity_pressure"), ("zones and coefficients", "en1991_1_4.py wall, flat roof and monopitch roof functions")],
     [("zones", "areas", "return values")],
     ["velocities", "pressures", "zone areas"],
     "differential monitor with tables re-entered from the standard and relations between evaluations",
     "random exploration; facades of at most 10 m2 have zero coefficients in the code and are not judged, nor the unfinished wind angle 90 of monopitch roofs.")

prop("B01", "Bolts and end plate joints have the EN 1993-1-8 resistance and stiffness",
     "Bolt shear, tension, bearing, punching, block tearing, combined resistance and weld throats are those of EN 1993-1-8 for every size, class, plate and bolt position, and a bolt whose size is changed has all properties and the available length of its size. "
     "For every bolted end plate joint of rolled column and beam (extended or flush, any number of tension and shear rows and row groups, plate wider or narrower than the column, column stiffeners, transformation parameter, column force) the component resistances, effective lengths, row and group resistances, row forces, moment and shear resistance, "
     "lever arm, initial and secant rotational stiffness are those of the component method, the row forces never exceed a row, group or compression side resistance, and results follow every later change of plate, bolts, welds, row positions and types, stiffeners or loads, in whatever order they are queried.",
     ["inputs", "configurations", "histories"],
     "all bolts, plates, joint geometries, stiffeners, and histories of changes and queries",
     "no test builds a bolted joint; each yield line pattern, row position and failure mode has its own branch and effective lengths are cached between queries",
     ["metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py", "metku/eurocodes/en1993/en1993_1_8/component_method.py", "metku/structures/steel/end_plate_joint.py"],
     [("bolts", "en1993_1_8.py Bolt, bolt_shear_resistance and other functions"), ("rows and groups", "en1993_1_8.py BoltRow, BoltRowGroup, TStub classes"), ("components", "component_method.py"), ("joint", "end_plate_joint.py EndPlateJoint")],
     [("_leff, failure_mode", "effective lengths of the governing mode", "TStub"), ("FtRd", "row force", "BoltRow"), ("p", "spacing used for group patterns", "T-stubs of rows")],
     ["MjRd, VjRd, Sj_ini, Sj", "component and row resistances"],
     "differential monitor: component method written independently, random joints and change histories",
     "random exploration; welded columns are not supported by the class; bearing is not part of the joint's shear resistance in the code; plastic distribution limit 6.2.7.2(9) and flush joints with a top stiffener not judged; mode 3 uses the mode 2 length for the web.")

prop("B02", "Fin plate joints have their ECCS 126 / EN 1993-1-8 shear resistances",
     "For every bolted fin plate joint of a rolled beam (one or two vertical bolt rows, any bolt number, size, class, spacing, plate and position) the eleven resistances - bolts in shear, bearing, gross and net shear, block tearing, bending and lateral-torsional buckling of the plate, "
     "and bearing, gross and net shear and block tearing of the beam web - are those of EN 1993-1-8 with the bolt forces of an elastic bolt group under the eccentric shear force. Edge distances, lever arm and hole positions follow every later change of plate, spacings, bolt numbers, bolt size, gap, beam or position in whatever order they are queried, "
     "position limits are judged by them, and joints of the same program do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all fin plate joint geometries and histories of changes and queries over several joints",
     "no test builds a fin plate joint; derived distances are stored in the plate object and refreshed by queries, and default objects can be shared between joints",
     ["metku/structures/steel/fin_plate_joint.py", "metku/structures/steel/plates.py", "metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py"],
     [("resistances", "fin_plate_joint.py FinPlateJoint.bolt_shear ... beam_web_block_tearing"), ("holes and edges", "plates.py RectPlateWithHoles")],
     [("plate.x0, n1, n2, px, py", "hole pattern", "RectPlateWithHoles"), ("bolt", "bolt object", "FinPlateJoint")],
     ["eleven resistances", "edge distances, lever arm"],
     "differential monitor: elastic bolt group from bolt coordinates, resistances from dimensions, histories over several joints",
     "random exploration; end-bolt edge distances are used for bearing as the code states; LTB uses curve d as the code states; end moments and tying forces are not part of the class.")

prop("K01", "Fabrication costs follow the cost model for the current state",
     "Blasting, plasma and flame cutting, painting, assembly welding and sawing costs follow Haapio's cost formulas (labour, equipment and real estate shares, consumables, energy) for every dimension, grade and paint, whatever was costed before, and more work does not cost less. "
     "The cost of a plate (material, painting, blasting, cutting, welds, holes), a bolted end plate or fin plate joint (plates, welds, holes, bolts with nuts and washers) and a tubular roof truss (material, blasting, painting, sawing, welding) is the sum of its current parts and follows every later change of dimensions, sections, bolts, holes or nodes; "
     "workshops, plates, joints and trusses of the same program do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all operations and dimensions, sets of workshops, plates, joints and trusses and histories of changes",
     "no test evaluates a cost; cost centres keep times and consumables between calls, default workshops are shared, and joint parts cache costs",
     ["metku/cost/workshop.py", "metku/cost/cost_data.py", "metku/structures/steel/plates.py", "metku/structures/steel/end_plate_joint.py", "metku/structures/steel/fin_plate_joint.py", "metku/raami/raami_plane_truss.py"],
     [("cost centres", "workshop.py CostCentre and subclasses, Workshop"), ("plates and holes", "plates.py RectPlate.cost, RectPlateWithHoles"), ("joints", "end_plate_joint.py, fin_plate_joint.py cost"), ("trusses", "raami_plane_truss.py cost methods")],
     [("times, consumables", "state of a cost centre", "CostCentre"), ("_cost", "cost distribution", "plates and joints")],
     ["cost of operations", "cost and distribution of plates, joints and trusses"],
     "differential monitor: cost formulas evaluated from scratch for the present dimensions, operations and changes in random order",
     "random exploration; drilling and beam welding centres are unfinished in the code; wall thicknesses in the range of the workshop's tables; end plate stiffeners as the code counts them (one plate per pair), holes of the column flange not included.")

prop("W01", "Timber sections have the right geometry and charring in fire",
     "The charred depth of every timber side (unprotected, boards, wood or other protections) is the time integral of the charring rates of EN 1995-1-2 / RIL 205-2 for its species, never decreases and is continuous, with the zero strength layer. "
     "Height, width, area, second moments and section moduli of prismatic, single and double tapered, belly, curved and pitched cambered timber beams are those of the remaining section at every point of the beam and any fire time, follow every later change of dimensions, angles, radius, apex, material, protections and sides on fire, "
     "and sections that share a fire protection do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all dimensions, shapes, grades, protections, fire times and histories of changes over several sections",
     "no test builds a timber section; charring has phases with their own branches, tapered shapes derived data, and protections are shared objects",
     ["metku/sections/timber/timber_section.py", "metku/eurocodes/en1995/en1995_1_2.py", "metku/eurocodes/en1995/fire_protection.py", "metku/materials/timber_data.py"],
     [("charring", "en1995_1_2.py charring_speed, d_char_n; fire_protection.py"), ("shapes", "timber_section.py TimberSection, PulpettiPalkki, HarjaPalkki, MahaPalkki, KaarevaPalkki, KaarevaHarjaPalkki")],
     [("t_ch, t_f, t_a", "times of a protection", "FireProtection"), ("h0, hap, alpha, beta, r_in, circles", "shape", "tapered sections"), ("small_elements", "sections of the finite elements", "TaperedSection")],
     ["charred depth", "H, B, A, I, Wel along the beam"],
     "differential monitor: integral of charring rates and shapes from their geometry, histories of changes over sections sharing protections",
     "random exploration; board times as in the code's tables; belly beams without apex-volume checks; fire strength factors not judged.")

prop("W02", "Timber member checks follow EN 1995-1-1",
     "Design strengths (kmod, material factors, size and length factors), axial, shear, biaxial bending, torsion and combined utilization ratios, shear reduction near supports, buckling lengths, slenderness, flexural buckling and lateral-torsional buckling between lateral supports, bracing forces, tapered-edge and apex-zone checks of timber members are those of EN 1995-1-1 "
     "for prismatic, mono-pitch, ridge, curved and pitched cambered members of solid timber, glued laminated timber and LVL, do not depend on the signs of bending moments, shear forces and torque, follow every later change of section, forces, lateral supports, end stiffnesses, load edge and fire, "
     "the design ratio is the largest of them, and members do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all members, materials, supports, internal forces and histories of changes",
     "no test designs a timber member; every material, shape and support has its own branch and buckling factors and support lists are stored between queries",
     ["metku/structures/timber/timber_member.py", "metku/eurocodes/en1995/en1995_1_1.py", "metku/eurocodes/en1995/constants.py", "metku/sections/timber/timber_section.py"],
     [("strengths", "timber_member.py fmd ... fr0d; timber_section.py k_h, k_h_t"), ("section checks", "timber_member.py check_normal_force ... check_bending_compression, section_resistance"), ("stability", "Ln, lamda, k_c, check_buckling, k_crit, check_LT_buckling, bracing"), ("tapered and curved", "k_l, k_r, k_p, k_dis, k_vol, k_m_alpha, check_apex_*")],
     [("lateral_support_y, lateral_support_z, L_c", "supports and segments", "TimberMember"), ("ned ... loc", "internal forces", "TimberMember"), ("beta, euler_beta", "buckling factors", "TimberMember")],
     ["utilization ratios", "strengths, factors, slenderness"],
     "differential monitor: independent EN 1995-1-1 rules for random members and change histories; sign metamorphic relations",
     "random exploration; compression perpendicular to grain (needs the old frame classes), equation (6.55), lateral buckling with tension and k_c at relative slenderness below 0.3 not judged; size factor by the depth at the start; strength tables as in the code.")

prop("T02", "Steel properties and temperatures in fire are those of EN 1993-1-2",
     "At every temperature from 20 to 1200 degrees the strengths, stiffness and bolt factors of carbon and stainless (1.4301) steel are linear interpolations of Tables 3.1, C.1, D.1 and E.1 of EN 1993-1-2 (constant outside), the stress-strain curves with and without strain hardening are those of Figure 3.1, Annex A and Annex C, continuous and with their tangents, "
     "and thermal elongation, conductivity and specific heat follow 3.4 and C.3. The temperature of an unprotected section under the standard, hydrocarbon or any other gas temperature curve is the integral of its heat balance (convection and radiation with the emissivity of its steel, its section factor and shadow factor), does not exceed the gas temperature, and grows with the section factor.",
     ["inputs", "configurations"],
     "all temperatures, strains, grades, sections, gas curves, time steps and durations",
     "no test evaluates a fire property; every interval of the tables and branch of the curves has its own formula",
     ["metku/eurocodes/en1993/en1993_1_2.py", "metku/materials/steel_data.py", "metku/sections/steel/ISection.py", "metku/sections/steel/steel_section.py"],
     [("tables", "en1993_1_2.py REDUCTION_FACTORS_*, reduce_property"), ("curves", "en1993_1_2.py stress, stress_stainless"), ("heating", "steel_temp, stainless_steel_temp, hnet; section_factor, shadow_effect")],
     [("Tsteel", "temperature history", "steel_temp")],
     ["strengths, stresses, thermal properties", "steel temperature history"],
     "differential monitor: tables re-entered from the standard, curves and heat balance evaluated independently; continuity, tangent and ordering relations",
     "random exploration; stresses from 0 to beyond ultimate strain in tension only; at most 1190 degrees in the curves (no stiffness at 1200); protected steel and member resistance in fire are not in the code; the stainless curve where Annex C is defined.")

prop("C01", "Composite beams and columns have their EN 1994-1-1 stiffness and resistance",
     "Creep and design strength of concrete, reinforcing bars and stud resistances are those of EN 1992-1-1 and EN 1994-1-1. For every composite beam of a rolled I profile and a concrete or composite slab the effective width, short- and long-term centroid, axial and bending stiffness, plastic neutral axis (in the slab, the flange or the web), plastic moment and shear resistance, "
     "and for every concrete filled rectangular tube the geometry of concrete and bars, axial resistances, effective stiffness, critical forces, slenderness, buckling resistance, plastic moments, weight and the utilization of combined compression and bending are evaluated from the present dimensions, materials, bars, forces and humidity, in equilibrium, whatever was changed before, and independently of the sign of moments. "
     "Beams and columns that share slabs, concretes or bars do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all sections, slabs, concretes, bars, spans, forces and histories of changes over several beams and columns",
     "no test builds a composite section; each position of the neutral axis is a separate branch, and materials and slabs are shared objects",
     ["metku/sections/composite/composite_beam.py", "metku/sections/composite/composite_column.py", "metku/eurocodes/en1992/constants.py", "metku/eurocodes/en1992/en1992_1_1.py", "metku/eurocodes/en1994/en1994_1_1.py"],
     [("beams", "composite_beam.py CompositeIBeam"), ("columns", "composite_column.py ConcreteFilledTube"), ("materials", "en1992/constants.py Concrete, en1992_1_1.py Rebar, en1994_1_1.py ShearStud")],
     [("slab, steel, RH, t0", "parts of a beam", "CompositeIBeam"), ("rebar_pos, nbars, ned, nged, med, lcr", "bars and forces", "ConcreteFilledTube")],
     ["stiffness, resistances", "printed utilization"],
     "differential monitor: rules evaluated from dimensions and stress blocks integrated over the section, histories of changes on shared parts",
     "random exploration; fillets of the web are neglected by the plastic rule of the code (bounded against the integration); minor axis of columns, welded profiles, columns without bars and partial shear connection are not in the code; tubes whose bars are cut by the neutral axis are not judged for the plastic moment.")

prop("P02", "Cold-formed sections and sheeting follow EN 1993-1-3",
     "The area, centroid, second moments, principal axes, shear centre, torsion and warping constants of every open profile are those of its centre line (EN 1993-1-3 Annex C) wherever it lies and however it is turned, mirrored, reversed, split or changed node by node or segment by segment. C and Z sections with or without lips have the centre line, straight parts, notional widths, gross area, weight, average yield strength, plate slenderness and reduction factors of their dimensions, and the shear stiffness required of the sheeting follows from them. "
     "Resistances to transverse forces of single and several webs, screw resistances and their limits, distortional buckling factors, rotational and shear restraint of purlins and the geometry of trapezoidal sheeting are those of EN 1993-1-3.",
     ["inputs", "configurations", "histories"],
     "all profiles, transformations and changes, all sections, webs, loads, screws and sheetings",
     "no test builds a cold-formed section; the rules have many branches and the profile shares its nodes with its segments",
     ["metku/eurocodes/en1993/en1993_1_3/open_prof.py", "metku/eurocodes/en1993/en1993_1_3/cf_profs.py", "metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py", "metku/eurocodes/en1993/en1993_1_3/trapezoidal.py", "metku/structures/steel/cf_steel_member.py"],
     [("profiles", "open_prof.py OpenProf"), ("C and Z sections", "cf_profs.py ZSection, CSection create_points, bp_*, effective_width_*"), ("rules", "en1993_1_3.py RwRd, RwRd_two_webs, screw_*, CD_A")],
     [("nodes, segments", "centre line", "OpenProf"), ("_rho_*, _lambda_*", "reduction factors", "ZSection")],
     ["section constants", "resistances and stiffnesses"],
     "differential monitor: Gauss integration over the centre line with the shear centre solved from its definition, rules evaluated independently; metamorphic transformations",
     "random exploration; effective cross-sections of C and Z sections (edge stiffeners, distortional buckling of a section) and spring stiffnesses of purlins are unfinished in the code; corners as polygons of five points, as the code models them.")

prop("K02", "Stressed skins and sandwich panels have their resistances and stiffness",
     "For every diaphragm of trapezoidal sheeting on rafters the fastener strengths (EN 1993-1-3 or ECCS), the factors beta_1 and beta_3 for fasteners in troughs or crests, the resistances of seams, edge members, sheet-to-rafter fasteners and end collapse, the profile distortion factor and all components of the shear flexibility are those of ECCS 88, "
     "and for every sandwich panel the geometry, bending and shear stiffness, fastener shear resistance, transverse stiffness of an elastically clamped screw and the shear stiffness provided to a supported member follow from the present faces, core, fasteners and support. They follow every later change, and diaphragms and panels do not affect each other.",
     ["inputs", "configurations", "histories"],
     "all sheets, spans, fasteners, members, faces, cores, supports and histories of changes",
     "no test builds a diaphragm or a panel; the factors have branches by parity and position of the fasteners and default arguments are shared",
     ["metku/structures/steel/stressed_skin.py", "metku/sandwich/sandwich.py", "metku/eurocodes/en1993/en1993_1_3/trapezoidal.py"],
     [("diaphragms", "stressed_skin.py StressedSkin, StressedSkinRafters"), ("panels", "sandwich.py Face, Core, SandwichPanel")],
     [("seam_fastener, edge_fastener, fastener_calc", "fasteners", "StressedSkin"), ("faces, core, c, fastener", "parts of a panel", "SandwichPanel")],
     ["resistances, flexibility", "stiffness"],
     "differential monitor: ECCS expressions and printed beta table, two-face section, flexibility equations of the screw; change histories",
     "random exploration; fasteners in every trough; the rafter fastener has the diameter of the seam fastener, as in the code; ratios between the tabulated ones take the row and column below, as in the code.")

prop("F05", "Beams with semi-rigid ends act as beams with rotational springs at their ends",
     "For every plane structure in which some beam elements have semi-rigid ends, whatever their stiffnesses between hinge and rigid, the displacements and rotations of the nodes and the axial force, shear force and bending moment at the ends of every element are those of the same structure with an explicit rotational spring of the given stiffness between the node and the end of the beam, in every load case, with nodal and line loads. "
     "Joint stiffness at or above the rigid limit gives a rigid connection and zero a hinge; changes of the stiffnesses, sections or loads are followed by the next analysis; the stiffness list of the caller is neither shared nor changed, and without stiffnesses the element is rigid.",
     ["inputs", "configurations", "histories"],
     "all structures, joint stiffnesses, loads and changes between analyses",
     "no test analyses a semi-rigid element; the stiffness matrix and the load vector are closed expressions of two stiffness ratios",
     ["metku/framefem/elements/eb_semi_rigid_beam.py", "metku/framefem/framefem.py"],
     [("stiffness", "eb_semi_rigid_beam.py local_stiffness_matrix"), ("loads", "eb_semi_rigid_beam.py equivalent_nodal_loads")],
     [("rot_stiff", "joint stiffnesses", "EBSemiRigidBeam")],
     ["nodal displacements", "member forces"],
     "differential monitor: independent frame solver with explicit rotational springs; histories of stiffnesses and loads",
     "random exploration; linear analysis (geometric stiffness of a semi-rigid element does not consider the springs).")

prop("R04", "A Frame2D analyses and designs the plane frame that the user gave",
     "For every plane frame given through Frame2D (storey frames, portals, pitched frames, continuous beams, crossing members, braces, members that end inside others; any joints, supports, point and line loads with their factors and load cases, self weight, in any order of adding), the elements form the members with at least the requested subdivision, connected at every common point, supported and loaded where given, "
     "and nodal displacements, axial forces, shear forces, moments, their extremes, deflection extremes, weight and drawings are those of that frame, in every load case, also after changes of profile, joint stiffness or coordinates. Utilization of a member is that of its steel member with the forces along it, it is strong enough only if it carries all load cases, and the optimum design takes the first profile of its family that does, until no member changes.",
     ["inputs", "configurations", "histories"],
     "all frames, loads, load cases, orders of adding and changes",
     "the tests analyse a handful of rectangular frames; connections are found from rounded coordinates and the frame keeps copies of forces, nodes and loads",
     ["metku/frame2d/frame2d.py"],
     [("geometry and mesh", "frame2d.py Frame2D.add, generate, FrameMember.generate, calc_nodal_coordinates, line_intersection, point_intersection"), ("loads and supports", "frame2d.py PointLoad, LineLoad, Support add_load, add_support"), ("results", "frame2d.py calc_nodal_forces, calc_nodal_displacements, med/ned/ved"), ("design", "frame2d.py design_member, optimum_design, optimize_members")],
     [("members, nodes, nodal_coordinates", "frame and mesh", "Frame2D"), ("nodal_forces, nodal_displacements", "results of load cases", "FrameMember")],
     ["mesh", "displacements, forces, utilizations, profiles", "drawn lines"],
     "differential monitor: independent frame solver built from the input, own steel member design and catalogue enumeration; drawn lines read back",
     "random exploration; node positions within members are those of the code (checked to be on the members, at least as many as requested, and at all loads, supports and joints); self weight with 10 m/s2 as in the code; timber members and trusses separately.")

prop("S04", "The profile library gives the properties and resistances of its profiles",
     "Every profile of the steel profile library has the dimensions of the catalogue profile of its name, and for it and for every rolled I profile of any dimensions, with or without fillets, the area, second moments, elastic and plastic section moduli, radii of gyration, shear areas, torsion and warping constants and perimeter are those of its dimensions, also after any of them is changed and for copies, which are independent. "
     "The steels of the library have the strengths and modulus of elasticity of EN 1993-1-1 and EN 1993-1-4 (MPa), a custom steel the given ones, and the resistances of a design section to axial force, shear and bending about both axes follow from its present profile and steel by EN 1993-1-1.",
     ["inputs", "configurations", "histories"],
     "all library profiles and steels, all dimensions, copies, changes and exchanged parts",
     "the tests sample one profile of the library; the constants are closed expressions of five dimensions with fillet terms",
     ["metku/profiles/steel/isections.py", "metku/profiles/steel/isection_formulas.py", "metku/design/steel_section.py", "metku/design/cross_section.py", "metku/materials/steel.py"],
     [("profiles", "isections.py ISection, ISections; isection_formulas.py"), ("steels", "materials/steel.py SteelMaterial, Steel, StainlessSteel"), ("resistances", "steel_section.py SteelSection")],
     [("h, b, tw, tf, r", "dimensions", "ISection"), ("material, profile", "parts", "SteelSection")],
     ["section constants", "resistances"],
     "differential monitor: geometry of the outline integrated independently, catalogue of the other library, printed tables; histories of changes and copies",
     "random exploration plus every profile of the library; the closed fillet terms of the second moments are approximations (rounded constants 0.03, 0.2146, 0.4468), bounded at 0.2 % of the fillet part.")

prop("T03", "A pin-jointed truss carries its loads by axial forces in equilibrium",
     "For every plane pin-jointed truss of generic sections or steel profiles (any nodes, members, supports and load cases, statically determinate or not), the displacements and axial forces in every load case satisfy equilibrium, compatibility and the elasticity of the members, members carry no shear or moment, the statics matrix maps member forces to nodal loads (and its transpose displacements to elongations), and utilization of a steel member and weight are those of its profile, force and length; "
     "also after profiles, areas, nodes or loads change. The three, ten and fifteen bar trusses of the library are those trusses with the given dimensions, loads and profiles.",
     ["inputs", "configurations", "histories"],
     "all trusses, supports, profiles, load cases and changes",
     "no test builds a SimpleTruss or a statics matrix; trusses of optimization are re-analysed after many changes",
     ["metku/raami/raami_simple_truss.py", "metku/raami/frame_node.py", "metku/framefem/elements/rod.py", "metku/framefem/framefem.py"],
     [("trusses", "raami_simple_truss.py SimpleTruss, three_bar_truss, ten_bar_truss, fifteen_bar_truss"), ("elements", "rod.py Rod"), ("statics matrix", "framefem.py statics_matrix")],
     [("nodes, members", "truss", "SimpleTruss"), ("nodal_forces, NEd, utilization", "results", "FrameMember")],
     ["displacements, forces", "statics matrix, utilization, weight"],
     "differential monitor: independent pin-jointed solver (equilibrium matrix), own member design; equilibrium and compatibility through the matrix of the code",
     "random exploration; mechanisms and ill-conditioned trusses are skipped; member lengths are rounded to 0.001 mm by the code, so results agree to 3e-5 (forces) and 1e-4 (displacements) of the largest.")

prop("T04", "A Truss2D is analysed with the joints, braces and chords the user gave",
     "For every tubular roof truss generated by Truss2D (any spans, heights, number of braces divisible by four, eave distance, origin, profiles, gaps and joint locations), the braces are at the joints "
     "asked for, end on the chord faces and meet with the requested gap; the analysis of every load case, in any order, gives the displacements and member forces of the structure with continuous chords, braces hinged at "
     "both chords, the eccentricities of the joints, the line loads and the supports of that load case; joints and chord members are designed with the profiles, angles and chord forces of the analysed load case, and the "
     "deflection is that of the bottom chord. This also holds after profiles, gaps or joint locations of the analysed truss change.",
     ["inputs", "configurations", "histories"],
     "all trusses, profiles, gaps, joint locations, loads, load cases and edits",
     "no test of the repository builds a Truss2D; eccentric joints are generated from geometry and moved again by every edit",
     ["metku/truss2d/truss2d.py", "metku/frame2d/frame2d.py"],
     [("truss, chords and braces", "truss2d.py Truss2D, TrussMember, TrussWeb"), ("joints", "truss2d.py TrussJoint"), ("loads, supports, analysis", "frame2d.py Frame2D")],
     [("joints, webs, top_chords, bottom_chords", "truss", "Truss2D"), ("nodal_coordinates, nodes, rhs_joint", "joint", "TrussJoint"), ("ned, med, ved, nodes[..].u", "results", "FrameMember")],
     ["joints, braces, chords", "displacements, forces", "joint forces, chord members"],
     "differential monitor: independent frame solver with a model built from the chord axes and brace ends, own geometry of gaps, feet and angles",
     "random exploration; quick 80 trusses of 8-20 braces with up to three analyses, thorough 800. Not judged: numbers of braces not divisible by four (their eaves have K joints), KT joints, linear (not uniform) loads after geometry "
     "changes, the setters of heights and eave distance, braces that lean over the other brace of their joint, the eccentricity setter.")

prop("T05", "Portal trusses carry the given loads to the column bases",
     "For every portal truss of PortalTruss (any span, heights, web type and division, bottom chord free of or connected to the columns, fixed or pinned bases, profiles and number of elements), columns run from the bases to the "
     "eaves at the ends of the span and the chords follow the roof and the given heights. Each load case, whatever the order in which roof and column loads and load cases were given, contains each of its loads once: any part of the "
     "portal left of a vertical cut is in equilibrium under the forces of the members cut, the base reactions and these loads. The chords are hinged to the columns, the bases hold as supported, free columns sway as "
     "cantilevers, symmetric loads give symmetric results, results are proportional to the loads, members report the forces of their elements, and the weight is that of all members. This also holds when profiles of "
     "columns, chords or braces of an analysed portal change, with the joint nodes moved or the model generated again: results are those of a portal built with these profiles.",
     ["inputs", "configurations", "histories"],
     "all portals, loads, load cases, orders and edits",
     "no test of the repository builds a PortalTruss; loads pass through two owners (portal and truss) and depend on the order in which they are given",
     ["metku/raami/raami_portal_truss.py", "metku/raami/raami_plane_truss.py"],
     [("columns, truss, joints to columns", "raami_portal_truss.py create_columns, create_truss, create_truss_to_column_joints"), ("loads", "generate_uniform_load, generate_piecewise_uniform_load"), ("finite element model", "generate_fem, clear_fem, update_fem_joint_nodes")],
     [("columns, truss, nodes", "portal", "PortalTruss"), ("loads, load_cases", "loads", "PortalTruss and its SlopedTruss"), ("elements, fint, u", "results", "FrameFEM")],
     ["geometry", "forces, displacements", "weight"],
     "metamorphic and equilibrium monitors on the solved model: cuts against the loads given by the user, rebuilt portals after edits",
     "random exploration; quick 60 portals with up to three analyses, thorough 800. Columns are exchanged for profiles of the same height; moved joint nodes (without a new model) are judged for portals with the bottom chord connected "
     "and braces of one element. Not judged: connected bottom chord with the first diagonal down (fails loudly), optimize_members, export of portals.")

prop("X01", "Models exported to Robot and Abaqus are the models in memory",
     "A Robot file of a frame, roof truss or simple truss, or of one or several parallel steel frames of Frame2D, lists exactly its nodes, members, profiles and materials, supports (released directions) and end releases (pinned bars and braces included; rotational stiffnesses and loads for Frame2D) in the state at the time of export, under the given name. An Abaqus file of a truss or frame lists every finite element node and element once (eccentricity elements of K joints as rigid couplings of the brace node to the chord node), "
     "every element of the exported members and chords in exactly one set with the outline and material of its present hollow section, hinged ends in the release sets, supports, couplings, requested load sets and monitored nodes. Exports do not affect each other or the options of the caller.",
     ["inputs", "configurations", "histories"],
     "all frames, trusses, models, options, names and sequences of exports",
     "no test exports a model; numbering, sets and shared option objects depend on structure, model and history",
     ["metku/raami/raami.py", "metku/raami/raami_plane_truss.py", "metku/raami/frame_member.py", "metku/raami/exports.py", "metku/sections/steel/RHS.py"],
     [("Robot", "raami.py to_robot, frame_member.py robot_releases"), ("Abaqus", "raami.py to_abaqus, raami_plane_truss.py to_abaqus, exports.py"), ("sections", "RHS.py abaqus, robot; ISection.py robot")],
     [("elsets, mpc, ecc_elements, included_members", "export data", "AbaqusOptions")],
     ["written files"],
     "offline monitor: written files parsed and compared with the structure, outlines measured",
     "random exploration; the meaning of the keywords of both programs is that documented in the code; profiles are IPE, HEA, HEB and hollow sections (others have no Robot name) and hollow sections for Abaqus; KT joints, the single-eccentricity model and Frame2D's own Robot export (whose support codes contradict it) are not judged.")

prop("W03", "Timber frames are analysed and designed with their own members",
     "In every plane frame with timber members given to Frame2D (prismatic, mono-pitch, ridge, belly, curved or pitched cambered; solid, glued laminated or LVL; any end stiffness, mesh, direction and order of adding; columns also of steel), displacements and internal forces in every load case, with or without self weight, are those of linear theory with the dimensions, material and charring of each member at the middle of each element. "
     "Each member is designed with those forces, its length, supports, neighbours and given lateral supports by EN 1995-1-1 (resistance, buckling, lateral buckling, shear near supports, compression perpendicular to grain at contacts), utilization and strength cover all load cases, and weight is volume times density; also after sections, dimensions, materials, end stiffnesses, fire time or geometry change.",
     ["inputs", "configurations", "histories"],
     "all timber frames, sections, loads, supports and edits",
     "the tests build no timber frame; the design of a member depends on its neighbours, mesh, supports and on the history of the frame",
     ["metku/frame2d/frame2d.py", "metku/structures/timber/timber_member.py", "metku/sections/timber/timber_section.py", "metku/framefem/elements/ebbeam.py"],
     [("members", "frame2d.py TimberFrameMember, Frame2D"), ("design", "timber_member.py TimberMember, contact and neighbour rules"), ("element sections", "timber_section.py SmallElementSection, create_elements")],
     [("elements, nodes, member", "analysis and design of a member", "TimberFrameMember"), ("r, is_strong_enough", "design results", "TimberFrameMember"), ("small_elements", "sections of the elements", "TaperedSection")],
     ["displacements, forces", "utilization, strength, contacts, weight"],
     "differential monitor: independent frame solver with sections evaluated from the given dimensions, own EN 1995-1-1 design with neighbours found from the geometry",
     "random exploration; utilization compared from below only for lateral buckling with tension, relative slenderness below 0.3 and LVL in service class 1; members with unsupported lengths without a section or with two nodes at one rounded location are judged for finiteness; self weight only with prismatic and mono-pitch members.")
