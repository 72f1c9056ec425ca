"""further property texts"""


def add(prop, not_applicable, G, B, R, L):
    prop('P09', 'Definitions are validated and completed consistently',
         'A definition of design guidelines, optimiser settings, objective '
         'weights or panel is accepted exactly when every given value is '
         'admissible, and otherwise rejected with a definition error. An '
         'accepted definition exposes the values given, with the derived ones '
         '(angle tables, covering plies, minimum percentages, filtered '
         'targets and weightings) following from them; a setting '
         'left out has the same effect as its default value.',
         ['inputs', 'configurations'],
         'every combination of settings, valid or with one invalid value, of '
         'the BELLA and LAYLA definitions',
         'the tests construct a handful of valid definitions',
         [B + 'constraints.py', B + 'parameters.py', B + 'obj_function.py',
          B + 'panels.py', L + 'constraints.py', L + 'parameters.py'],
         [('validation', 'constructors'),
          ('filters', 'filter_target_lampams, filter_lampam_weightings')],
         'property-based testing: valid definitions and one-defect mutations '
         'against a reference of the derived values',
         'One defect is injected in a valid definition and must be rejected.')
    prop('P11', 'A multi-panel structure maps faithfully to its blending strip',
         'For every connected set of panels the boundaries, areas and weights '
         'are those declared, and the blending strip has one panel per '
         'distinct thickness with weightings and boundary weights summed over '
         'the panels it stands for. The design sequence visits each added or '
         'dropped ply exactly once, and inconsistent structures are rejected.',
         ['inputs', 'configurations'],
         'every connected graph of up to seven panels, ply counts, weightings '
         'and reference thickness',
         'the tests use one fixed structure',
         [B + 'multipanels.py', B + 'reduced_multipanels.py',
          B + 'panels.py'],
         [('structure', 'MultiPanel'),
          ('strip', 'from_mp_to_blending_strip')],
         'property-based testing over random panel graphs against a reference '
         'construction; defects injected in valid structures',
         'Connected random graphs, edges declared on either or both sides.')
    prop('P12', 'Laminates are divided into admissible groups of plies',
         'Whenever a division into groups of the allowed sizes exists it is '
         'found, with the least number of groups, sizes within the limits '
         'covering all plies exactly once, and larger groups inside; '
         'otherwise the division is refused. The ply drops of thinner panels '
         'are all distributed, in proportion to the size of the groups.',
         ['inputs', 'configurations'],
         'every ply count up to 120, group size limits, symmetric or not, '
         'covering plies or not',
         'no existing test covers the division into groups',
         [B + 'divide_panels.py', L + 'divide_laminate_sym.py',
          L + 'divide_laminate_asym.py'],
         [('panels', 'divide_panels'), ('laminates', 'divide_laminate_*')],
         'property-based testing against an arithmetic feasibility oracle and '
         'tiling invariants',
         'Feasibility, minimality, tiling and proportionality are checked.')
    prop('P13', 'Partial lamination parameters add up to those of the laminate',
         'The plies of each panel are visited once, from the outside in, and '
         'their areas and moments of area add up to those of the laminate. '
         'Summing the contributions of the plies gives the lamination '
         'parameters of the full stack for every stack, thickness and ply-drop '
         'layout.',
         ['inputs', 'configurations'],
         'every thickness up to 40 plies, every stack over every set of fibre '
         'angles, symmetric or not, every layout of a strip',
         'no existing test covers the partial lamination parameters',
         [B + 'ply_order.py', B + 'moments_of_areas.py',
          B + 'lampam_matrix.py', L + 'ply_order.py',
          L + 'moment_of_areas.py'],
         [('order', 'calc_ply_order'), ('moments', 'calc_mom_of_areas'),
          ('contributions', 'calc_delta_lampams')],
         'property-based testing against independent classical lamination '
         'theory (additivity)',
         'Sum over plies compared with a direct through-thickness integral.')
    prop('P14', 'Objectives measure weighted distance to target plus penalties',
         'The objective of a panel is the weighted squared (or absolute) '
         'distance between its lamination parameters and its targets: zero at '
         'the targets, never negative. The objective of a structure sums the '
         'panels with their weightings, each multiplied by its active '
         'penalties, and the weightings used are the normalised user weightings '
         'with only the entries governed by symmetry and orthotropy replaced.',
         ['inputs', 'configurations'],
         'every targets, weightings, lamination parameters, penalties and '
         'coefficients, BELLA and LAYLA',
         'no existing test covers the objectives',
         [B + 'objectives.py', B + 'panels.py', L + 'objectives.py',
          L + 'parameters.py', L + 'targets.py'],
         [('objective', 'calc_obj_one_panel, calc_obj_multi_panel, '
           'objectives'), ('weightings', 'filter_lampam_weightings, '
                           'weights_calculation')],
         'property-based testing against a direct formula',
         'Weightings recomputed from the user input; objectives from them.')
    prop('P15', 'Initial ply-drop layouts are complete, nested and well spaced',
         'Every generated ply-drop layout gives each panel exactly its ply '
         'count, keeps the covering plies, is symmetric when asked, and never '
         'stops a ply in a panel that continues in a thinner one; the drops '
         'fall in the groups of the division. Among the layouts explored those '
         'satisfying the ply-drop spacing rule are retained first, then those '
         'violating it least, without repetition.',
         ['inputs', 'schedules'],
         'every blending strip of up to four thicknesses, group sizes, '
         'covering plies, spacing limits and random draws, under a simulated '
         'clock that expires at any point',
         'no existing test covers the generation of the layouts',
         [B + 'pdl_ini.py', B + 'pdl_group.py', B + 'divide_panels.py'],
         [('one layout', 'create_initial_pdl'),
          ('all layouts', 'create_initial_pdls')],
         'property-based testing: structural invariants, and an independent '
         'recount of the spacing penalty of every layout explored',
         'The time limits are driven by a deterministic clock.')
    prop('P16', 'Stacks, stacking sequence tables and layouts convert faithfully',
         'Converting between panel stacking sequences, stacking sequence '
         'tables, guide stacks with ply-drop layouts, and ply positions in a '
         'panel or in the table loses nothing: every ply keeps its orientation '
         'and place, round trips are the identity and modified plies propagate '
         'to every panel they cover. Layouts recovered from tables and the '
         'selection of layouts by spacing follow their definition.',
         ['inputs', 'configurations'],
         'every nested layout of up to five panels and 24 plies, any angles '
         'and positions',
         'no existing test covers these conversions',
         [B + 'format_pdl.py', B + 'pdl_tools.py'],
         [('conversions', 'convert_*, pos_in_*'),
          ('layouts', 'input_pdl_from_sst, ply_drops_rules')],
         'property-based testing: round trips and a reference built with plain '
         'lists',
         'Random nested layouts, guides, positions and blending strips.')
    prop('P17', 'The guided search adds exactly the plies the guidelines allow',
         'At each level of the search, the '
         'orientations kept for the next ply are exactly those for which the '
         'plies chosen so far and the new ply satisfy damage tolerance, '
         'disorientation and contiguity, mirror plies included for the last '
         'one, and the middle ply is at 0 or 90.',
         ['inputs', 'histories'],
         'every sequence of choices for half laminates of up to 15 plies and '
         'asymmetric laminates of up to 20 plies, all '
         'settings of the three guidelines, BELLA and LAYLA pruning',
         'no existing test covers the pruning',
         [B + 'pruning.py', L + 'pruning.py',
          G + 'external_contig.py', G + 'internal_contig.py'],
         [('BELLA', 'pruning_diso_contig_damtol'),
          ('LAYLA', 'pruning_diso_contig_damtol')],
         'stateful property-based testing: random walks in the search tree, '
         'each decision compared with the definition of the guidelines',
         'Each kept and each pruned orientation is judged independently.')
    prop('P29', 'Panels re-designed around the reference panel respect the rules',
         'Thick-to-thin and thin-to-thick repair keep the reference panel (and '
         'the panels on its other side) and give each other panel its ply '
         'count by dropping or adding plies one by one, nested, symmetric if '
         'requested, '
         'with balance restored before another angled ply is touched, no '
         'covering ply touched, and contiguity, 10% rule (and disorientation '
         'when adding plies) satisfied throughout. Branching limits keep, at '
         'each step, the nodes of lowest spacing penalty, then of lowest '
         'weighted objective. Of the designs reached the best is returned, '
         'with the lamination parameters of its stacks; without limits, '
         'failure is reported only if no design exists.',
         ['inputs', 'configurations'],
         'every reference panel satisfying the guidelines, up to three thinner '
         'or thicker panels, any targets, weightings and branching limits',
         'no existing test covers the repair of the ply drops',
         [R + 'thick_to_thin.py', R + 'thin_to_thick.py',
          B + 'reduced_multipanels.py'],
         [('thinner panels', 'repair_thick_to_thin'),
          ('thicker panels', 'repair_thin_to_thick')],
         'property-based testing against exhaustive enumeration of the designs '
         'without limits, against a search written independently with limits',
         'Searches where two different designs are too close to say which one '
         'is kept are judged on feasibility only.')
    prop('P23', 'Repair for balance and the 10% rule is sound and minimal',
         'From any stack, the repair returns outer plies and a queue of inner '
         'plies that together form a laminate of the same size satisfying '
         'the active symmetry, balance and 10% rule, whenever such a laminate '
         'exists; otherwise, with the rule on lamination parameters, no single '
         'change brings it closer to the rule. The outer plies kept are those '
         'of the stack, and as many as can be kept.',
         ['inputs', 'configurations'],
         'every stack of 4 to 40 plies, symmetric or not, any angles and '
         'minimum percentages, on ply counts or on lamination parameters',
         'no existing test covers this repair',
         [R + 'repair_10_bal.py', G + 'ten_percent_rule_Abdalla.py'],
         [('on ply counts', 'repair_10_bal, calc_mini_10'),
          ('on lamination parameters', 'repair_10_bal, calc_distance_Abdalla')],
         'property-based testing against the exact number of plies that must '
         'be replaced',
         'Optimality of the plies kept is judged for the counting rule.')
    prop('P24', 'In-plane refinement improves the laminate and keeps it feasible',
         'Each laminate in the list returned by the membrane refinement is '
         'obtained by changing the innermost plies only, leaving alone the '
         'outer plies excluded from it, satisfies symmetry, balance and the 10% rule, and comes with its '
         'exact in-plane lamination parameters and a lower objective than the '
         'next one. Each change is the best one allowed, none allowed improves '
         'the first laminate, and '
         'nothing changes when the refinement is switched off.',
         ['inputs', 'configurations'],
         'every laminate produced by the repair for balance and the 10% rule, '
         'any target, coefficients and proportion of modifiable plies',
         'no existing test covers the refinement',
         [R + 'repair_membrane.py', R + 'repair_membrane_1_ipo.py',
          R + 'repair_membrane_1_no_ipo.py',
          R + 'repair_membrane_1_ipo_Abdalla.py',
          R + 'repair_membrane_1_no_ipo_Abdalla.py', R + 'repair_10_bal.py'],
         [('balanced', 'repair_membrane_1_ipo'),
          ('not balanced', 'repair_membrane_1_no_ipo')],
         'property-based testing: invariants of every laminate listed and '
         'local optimality by enumeration of the moves',
         'Objectives and lamination parameters are recomputed independently.')
    prop('P25', 'Repair for disorientation and contiguity is honest',
         'The repair only reorders plies: it keeps the plies, the symmetry, '
         'the middle ply and the outer plies set by damage tolerance, and '
         'reports success only for laminates satisfying the rules. The inward '
         '(outward) repair places from the outside (the middle) one ply after '
         'the other, each time the first remaining ply satisfying the rules, '
         'and permutes the last n_D1 plies, so that feasible laminates come '
         'back unchanged and a repair within reach is never missed. '
         'From a list, the first repairable laminate is returned.',
         ['inputs', 'configurations'],
         'every stack of 6 to 40 plies, symmetric or not, partly given as a '
         'queue, any rule settings and sizes of the last permutation',
         'no existing test covers this repair',
         [R + 'repair_diso_contig.py', R + 'repair_diso_contig_tools.py',
          R + 'repair_from_outside_sym.py', R + 'repair_from_inside_sym.py',
          R + 'repair_from_outside_asym.py', R + 'repair_from_inside_asym.py'],
         [('one laminate', 'repair_diso_contig'),
          ('list', 'repair_diso_contig_list')],
         'property-based testing: invariants, and exhaustive permutations of '
         'small laminates',
         'Random stacks and rule-abiding stacks with a few plies swapped.')
    prop('P26', 'Out-of-plane refinement lowers the objective within the rules',
         'The refinement reorders plies only: it keeps the symmetry, the middle '
         'ply, the outer plies set by damage tolerance, disorientation and '
         'contiguity, and never raises the out-of-plane objective. Whenever an '
         'allowed swap of equal ply blocks, or move of a ply within the '
         'prescribed number of plies, lowers the objective of the laminate, '
         'an improved laminate is returned: blocks and positions are treated '
         'from the outside in, each with its best change.',
         ['inputs', 'configurations'],
         'every laminate of 6 to 40 plies satisfying the rules, any target, '
         'coefficients and search settings',
         'no existing test covers the refinement',
         [R + 'repair_flexural.py', R + 'repair_flexural_1.py',
          R + 'repair_flexural_2.py', R + 'repair_flexural_3.py',
          R + 'repair_flexural_tools.py'],
         [('swap of blocks', 'repair_flexural_1'),
          ('moves of plies', 'repair_flexural_2, repair_flexural_3')],
         'property-based testing: invariants, enumeration of the swaps and '
         'moves available, and a model of the search with all its ties',
         'Objectives are recomputed from the stacks returned.')
    prop('P27', 'The complete repair of a laminate delivers a feasible laminate',
         'The repair of a single laminate either returns the initial stack '
         'and reports failure, or returns a laminate of the same size '
         'satisfying symmetry, balance, the 10% rule, disorientation, '
         'contiguity and, if the outer plies allowed it, damage tolerance. '
         'Laminates that satisfy the rules are always repaired, their in-plane '
         'objective never rises, and they are unchanged when the refinements '
         'are switched off. The objective reported is that of the laminate.',
         ['inputs', 'configurations'],
         'every stack of 8 to 40 plies with 0 or 90 in the middle if odd and '
         'symmetric, LAYLA or BELLA constraints, any target and parameters',
         'no existing test covers the complete repair',
         [R + 'repair_ss.py', L + 'parameters.py', L + 'constraints.py',
          L + 'objectives.py'],
         [('repair', 'repair_ss')],
         'property-based testing: guidelines recomputed independently, and '
         'consistency with the separate steps',
         'Random, rule-abiding and slightly altered stacks.')
    prop('P28', 'The repaired multi-panel design is blended and reported faithfully',
         'The repair of the reference panel either fails leaving the design '
         'unchanged, or gives a reference panel satisfying all guidelines, '
         'passed on to the other panels through the ply-drop layout. The '
         'complete repair returns stacks, table and layout that describe the '
         'same nested design of the prescribed ply counts, and '
         'reports success only if the panels around the reference panel can '
         'be reached ply by ply within the guidelines.',
         ['inputs', 'configurations'],
         'every nested structure, symmetric or not, with panels thinner and thicker '
         'than the reference panel, any guidelines, targets and node limits',
         'no existing test covers these repairs',
         [R + 'repair_reference_panel.py', R + 'repair_mp.py',
          R + 'thick_to_thin.py', R + 'thin_to_thick.py',
          B + 'format_pdl.py'],
         [('reference panel', 'repair_reference_panel'),
          ('complete design', 'repair_mp')],
         'property-based testing: independent statement of the guidelines and '
         'of nesting over random structures',
         'Initial designs are feasible, altered or random reference panels.')
    prop('P18', 'Optimised multi-panel designs are feasible and blended',
         'Whenever the optimiser returns designs, each design has for each '
         'panel a stacking sequence of the prescribed number of plies, made '
         'of the allowed fibre angles, symmetric if requested, and all '
         'panels are blended: by increasing thickness each ply of a panel '
         'continues in the thicker panels and covering plies are never '
         'dropped. Contiguity, the 10% rule and damage tolerance hold in '
         'every panel, all guidelines hold in the reference panel, and '
         'disorientation and balance are only lost where no choice of ply '
         'drops could keep them. Without guidelines a design is always '
         'found.',
         ['inputs', 'configurations', 'random seeds'],
         'every structure of 1 to 5 panels with laminates of equal parity or asymmetric, '
         'any guidelines, targets, weightings, parameters and seeds',
         'the existing tests never run the optimiser',
         [B + 'optimiser.py', B + 'optimiser_with_one_pdl.py',
          B + 'pruning.py', R + 'repair_mp.py', B + 'format_pdl.py',
          B + 'pdl_ini.py', B + 'divide_panels.py'],
         [('optimisation', 'BELLA_optimiser'),
          ('beam search', 'BELLA_optimiser_one_pdl')],
         'property-based testing: complete runs on random design problems '
         'with an independent statement of guidelines and blending',
         'Real runs of the whole optimiser with small node limits; clocks '
         'replaced and the saving of the results left out.')
    prop('P19', 'Optimiser results report the designs they return',
         'All quantities reported with a design - lamination parameters, ply '
         'counts, violations and penalties of each guideline, objective of '
         'each panel and of the structure, spacing penalty - are those of '
         'the reported stacking sequences. The best design reported is the '
         'one with the smallest objective among all ply-drop layouts.',
         ['inputs', 'configurations', 'random seeds'],
         'every structure of 1 to 5 panels with laminates of equal parity or asymmetric, '
         'any guidelines, targets, weightings, parameters and seeds',
         'the existing tests never run the optimiser',
         [B + 'optimiser.py', B + 'optimiser_with_one_pdl.py',
          B + 'results.py', B + 'results_with_one_pdl.py',
          B + 'obj_function.py', B + 'objectives.py'],
         [('results', 'BELLA_Results'), ('objective', 'calc_obj_multi_panel')],
         'property-based testing: reported values recomputed from the '
         'definitions for every design of complete runs',
         'Up to three ply-drop layouts per run.')
    prop('P20', 'Optimised designs do not depend on irrelevant inputs',
         'Two optimisations with the same random seed return the same '
         'designs. The designs are also unchanged by inputs without meaning '
         'for the problem: identifiers and order of panels, order of fibre '
         'angles, scale of weightings, panel geometry and loads, material, '
         'settings of disabled guidelines, targets filtered out by the '
         'guidelines, the way neighbours are declared, weights of boundaries '
         'between panels of equal thickness, and earlier optimisations with '
         'the same objects. Scaling the panel '
         'weightings scales the objective.',
         ['inputs', 'configurations', 'random seeds', 'pairs of runs'],
         'pairs of design problems of 1 to 4 panels, equal up to one of '
         'fourteen kinds of irrelevant change',
         'the existing tests never run the optimiser, and a metamorphic '
         'relation needs pairs of runs',
         [B + 'optimiser.py', B + 'multipanels.py', B + 'reduced_multipanels.py',
          B + 'parameters.py', B + 'obj_function.py', B + 'constraints.py',
          B + 'pdl_ini.py'],
         [('optimisation', 'BELLA_optimiser'),
          ('reduced structure', 'ReducedMultiPanel')],
         'property-based testing: metamorphic relations between two complete '
         'runs',
         'Random and NumPy generators are reseeded before each run.')
    prop('P21', 'The saved workbook agrees with the designs found',
         'The workbook saved by an optimisation describes the problem as it '
         'was given (guidelines, material, parameters, objective function, '
         'panels) and holds one table for every ply-drop layout that led to '
         'a design, followed by the table of the best one. Every figure in a '
         'table is that of the stacking sequence saved next to it. Saving a '
         'given stacking sequence table reports its own penalties, weights '
         'and buckling factors.',
         ['inputs', 'configurations', 'random seeds'],
         'design problems of 1 to 4 panels, saved and read back cell by cell; '
         'structures with arbitrary stacking sequence tables',
         'the existing tests save no result, and the agreement must hold for '
         'every column of every design',
         [B + 'save_result.py', B + 'save_set_up.py', B + 'optimiser.py',
          B + 'results.py', 'src/divers/excel.py'],
         [('results', 'save_result_BELLAs'), ('set-up', 'save_multipanel')],
         'property-based testing: workbooks of complete runs read back and '
         'recomputed from the saved stacking sequences',
         'The package src.CLA is absent; laminate stiffnesses come from an '
         'independent stand-in.')
    prop('P22', 'Ply-drop layouts given in a workbook are used as saved',
         'Layouts saved in a workbook are read back unchanged, in the order '
         'of their numbers, up to the first missing one and whatever else '
         'the workbook holds. An optimisation given such a workbook uses the '
         'layouts in that order, at most as many as requested, and refuses '
         'layouts of another structure. Optimising from the layouts of '
         'an earlier run reproduces its designs.',
         ['inputs', 'configurations', 'pairs of runs'],
         'every list of layouts, saved in any order among other sheets; '
         'structures of 1 to 4 panels run from saved layouts',
         'the existing tests read no layout',
         [B + 'pdl_ini.py', B + 'optimiser.py', 'src/divers/excel.py'],
         [('reading', 'read_pdls_excel'), ('use', 'BELLA_optimiser')],
         'property-based testing: round trips through generated workbooks '
         'and differential runs',
         'The optimiser is run on small structures only.')
    prop('P30', 'Buckling factors are those of plate theory',
         'The buckling factor of a simply supported plate is the smallest '
         'ratio of bending energy to work of the loads over the modes '
         'considered, for any stacking sequence or lamination parameters. It '
         'scales inversely with the loads, with the cube of the '
         'thickness, and is unchanged by mirroring the laminate or turning '
         'plate, laminate and loads together.',
         ['inputs'],
         'every laminate, material, plate size, pair of loads and number of '
         'modes; arbitrary bending lamination parameters',
         'the existing tests compare a handful of values',
         ['src/buckling/buckling.py', B + 'materials.py'],
         [('factor', 'buckling_factor'), ('mode', 'buckling_factor_m_n')],
         'property-based testing against plate theory computed from ply '
         'stiffnesses, and metamorphic relations',
         'Compressive loads without shear, as the code supports.')
    prop('P31', 'Orthotropy measures follow from the laminate stiffnesses',
         'The twelve in-plane and out-of-plane orthotropy parameters are the '
         'ratios of the coupling to the other entries of the stiffness and '
         'compliance matrices of the laminate. Penalties of the '
         'balance, in-plane and out-of-plane orthotropy guidelines vanish '
         'exactly for laminates that satisfy them, grow with the '
         'violation, and treat a batch of laminates as each one alone.',
         ['inputs', 'configurations'],
         'every laminate, material, lamination parameters, batch and choice '
         'of guidelines',
         'the existing tests compare a handful of values',
         ['src/guidelines/ipo_oopo.py'],
         [('parameters', 'ipo_param_1_12'),
          ('penalties', 'calc_penalty_ipo_oopo_mp')],
         'property-based testing against stiffness matrices computed from '
         'the plies, and batch/single differentials',
         'Ratios with a vanishing denominator are not compared.')
    prop('P32', 'Design problems survive saving to and reading from a workbook',
         'A design problem saved in a workbook and read by the scripts that '
         'run the optimiser from an input file gives the optimiser the same '
         'guidelines, objective coefficients, material, panels, targets, '
         'weightings and boundaries. The scripts that format stacking '
         'sequence tables of another optimiser save, for each panel, the '
         'sequence of its ply count and figures computed from it.',
         ['inputs', 'configurations'],
         'design problems of 1 to 5 panels with any guidelines, saved and '
         'read by the scripts; tables in any column order',
         'no existing test runs a script',
         ['run_BELLA_from_input_file_SST_1.py',
          'run_BELLA_from_input_file_horseshoe.py',
          'FXI-results/format_restults_FXI_SST_1.py',
          'FXI-results/format_restults_FXI_horseshoe.py',
          B + 'save_set_up.py'],
         [('saving', 'save_multipanel, save_constraints_BELLA'),
          ('reading', 'scripts')],
         'property-based testing: round trip of generated problems through '
         'the scripts, the optimiser replaced by a recorder',
         'Boundary weights are not part of an input file.')
    prop('P33', 'Helpers for workbooks, sorting and searches are exact',
         'Tables added to a workbook follow the content of their sheet, at '
         'the row requested or in place of it, and leave other cells '
         'unchanged; a file is deleted only with the agreement of the user. '
         'Sorting by a given order, element-wise maxima, subset-sum searches, '
         'angles between plies and ply depths are exactly what their '
         'definitions require, and displays list every value in order.',
         ['inputs', 'histories'],
         'histories of up to seven writes to a workbook; every list, pair of '
         'arrays, set of weights, pair of angles and of plies',
         'the existing tests compare two pairs of arrays',
         ['src/divers/excel.py', 'src/divers/sorting.py',
          'src/divers/arrays.py', 'src/divers/subset_sum.py',
          'src/divers/pretty_print.py', 'src/RELAY/repair_tools.py'],
         [('workbooks', 'append_df_to_excel'), ('files', 'delete_file'),
          ('order', 'sortAccording'), ('maxima', 'max_arrays'),
          ('subsets', 'subset_sum_find'), ('displays', 'print_ss'),
          ('angles', 'calc_delta_angle_2')],
         'property-based testing: workbook histories against a model of the '
         'cells, exhaustive enumeration of subsets',
         'Up to eight weights; files only in a temporary directory.')
    prop('P34', 'The search of the fibre orientations keeps the best nodes',
         'At each level of the beam search the children of a node allowed '
         'by the guidelines are kept up to the limit per node, then the '
         'nodes of the level up to the global limit, always those of lowest '
         'weighted distance to the targets; the final limit holds at the '
         'last level. Without limits and improvement steps, the design of '
         'a panel is at least as good as every laminate that obeys all the '
         'guidelines.',
         ['inputs', 'configurations'],
         'every structure of up to 4 panels, guidelines, targets, weightings '
         'and node limits; for the second part every laminate of up to 11 '
         '(symmetric) or 6 plies',
         'no existing test runs the search',
         [B + 'optimiser_with_one_pdl.py', B + 'optimiser.py',
          B + 'pruning.py', B + 'lampam_matrix.py',
          B + 'moments_of_areas.py', B + 'objectives.py'],
         [('search', 'BELLA_optimiser_one_pdl'),
          ('pruning', 'pruning_diso_contig_damtol'),
          ('objective', 'calc_obj_each_panel, calc_obj_multi_panel')],
         'property-based testing against a beam search written '
         'independently, and against the enumeration of all the laminates '
         'of few plies',
         'Searches where two nodes are too close to each other (1e-9) to '
         'say which one is kept are not judged; damage tolerance rules 1 '
         'and 2 only; the 10% rule of odd symmetric laminates without '
         'their middle ply.')
    prop('P35', 'Optimised single laminates are feasible and as reported',
         'The optimiser of single laminates (LAYLA) returns a laminate with '
         'the number of plies requested that obeys all the active guidelines, '
         'the best of its outer steps, and reports the lamination parameters '
         'of its stacking sequence and the penalised distance to the targets. '
         'At each level of a group of plies the nodes of lowest penalised '
         'objective are kept up to the node limits, the other groups '
         'contributing the plies chosen so far or those of the previous outer '
         'step, and of the repaired designs the best is kept. The search '
         'fails only when no node is left or no design can be repaired, and '
         'it does not depend on earlier optimisations with the same objects.',
         ['inputs', 'configurations'],
         'laminates of 8 to 30 plies, symmetric or not, any guidelines, '
         'targets, weightings, group sizes, penalties and node limits, 1 to 3 '
         'outer steps', 'no existing test runs it',
         [L + 'optimiser.py', L + 'beam_search.py', L + 'outer_step_sym.py',
          L + 'outer_step_asym.py', L + 'targets.py', L + 'results.py',
          L + 'objectives.py', L + 'ply_order.py', L + 'pruning.py'],
         [('optimiser', 'LAYLA_optimiser'), ('search', 'beam_search'),
          ('outer steps', 'outer_step_sym, outer_step_asym')],
         'property-based testing: results of complete runs recomputed from '
         'the definitions, and a beam search written independently',
         'Searches where two nodes are too close to each other (1e-9) to say '
         'which one is kept are not judged; guidelines that must not be '
         'satisfied are not used.')
    prop('P36', 'The saved set-up of LAYLA agrees with the objects in use',
         'The workbook of a single-laminate optimisation lists the active '
         'guidelines with their settings, the guidelines the target must not '
         'satisfy, the effective optimiser parameters and the material '
         'properties, with the values of the objects saved, whatever the '
         'order in which the sheets are saved.',
         ['inputs', 'configurations'],
         'every set of guidelines, parameters and materials',
         'no existing test saves a set-up',
         [L + 'save_set_up.py', L + 'parameters.py', L + 'constraints.py',
          L + 'materials.py'],
         [('guidelines', 'save_constraints_LAYLA'),
          ('parameters', 'save_parameters_LAYLA_V02'),
          ('materials', 'save_materials')],
         'property-based testing: the workbook read cell by cell against the '
         'inputs of the objects',
         'Minimum percentages of 45 and -45 plies as given by the user.')
