"""Writes properties.jsonl and MANIFEST.json from the table below (claimed
properties are those with a contracts module)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = 'contract-based deductive verification of the Python source (weakest ' \
    'preconditions + loop invariants, z3/cvc5), contracts also evaluated on ' \
    'the real functions'

P = []


def prop(id, title, statement, over, text, why, files, mech, note,
         level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, note=note,
                  level=level))


G = 'src/guidelines/'
prop('C01', 'Contiguity verdicts and violation counts are exact',
     'A stacking sequence is declared to satisfy the contiguity guideline '
     'with limit n (2 <= n <= 6) exactly when it contains no n + 1 adjacent '
     'plies of the same orientation. The per-ply violation matrices, the '
     'per-panel and per-laminate violation counts and the contiguity penalty '
     'agree with that definition, the outermost ply at each surface being '
     'left out when two-ply damage tolerance applies.',
     ['inputs', 'configurations'],
     'all stacking sequences of any length and orientations, all lists of '
     'panels, all limits and damage tolerance settings of both programs',
     'no existing test touches contiguity; the rule has five separately '
     'coded limits and quantifies over every window of every stack',
     [G + 'contiguity.py'],
     [('is_contig', G + 'contiguity.py'),
      ('calc_penalty_contig_mp / _ss', G + 'contiguity.py')],
     'all functions under contract are verified for stacks and panel lists of '
     'any length; machine integers are treated as mathematical')
prop('C02', 'Contiguity filters keep exactly the admissible candidates',
     'Filtering a set of candidate ply groups for contiguity returns exactly '
     'the rows that respect the limit (2 to 6), in their original order and '
     'unchanged, whether the rule is checked within each group or only '
     'across the junction with the plies already placed next to it; when a '
     'second set of stacks is filtered along, the returned rows of both sets '
     'still correspond. The stack-level test used during pruning gives the '
     'same verdict as the definition. An unsupported limit is an error and a '
     'rule that is off removes nothing.',
     ['inputs', 'configurations'],
     'all candidate matrices of any size, all neighbouring groups of any '
     'length, all limits, with or without a companion set',
     'no existing test covers the filters; each limit and each split of a '
     'block across the junction is coded by hand in a separate branch (about '
     'forty branches), only some of which a run of the optimiser reaches',
     [G + 'internal_contig.py', G + 'external_contig.py'],
     [('internal_contig, internal_contig2', G + 'internal_contig.py'),
      ('external_contig', G + 'external_contig.py')],
     'for the junction filter the proofs for limits 3 to 6 are generated by '
     'the thorough command (cost), the quick one evaluates them on inputs')
prop('C04', 'Disorientation and contiguity filters keep exactly the '
     'admissible ones',
     'Filtering a set of candidate ply groups for disorientation and '
     'contiguity returns exactly the rows that satisfy the active rules, in '
     'their original order and unchanged: within each group (every pair of '
     'neighbouring plies and every window of plies), or at the junction with '
     'the plies already placed next to it. When a second set of stacks is '
     'filtered along, the rows of both sets still correspond. An unsupported '
     'contiguity limit is an error and a rule that is off removes nothing.',
     ['inputs', 'configurations'],
     'all candidate matrices of any size, all neighbouring groups of any '
     'length, all limits and all combinations of active rules',
     'no existing test covers the filters; both rules are combined over '
     'every row, position and junction length in hand-written branches',
     [G + 'internal_diso_contig.py', G + 'external_diso_contig.py'],
     [('internal_diso_contig', G + 'internal_diso_contig.py'),
      ('external_diso_contig', G + 'external_diso_contig.py')],
     'the costliest proofs (larger limits) are generated by the thorough '
     'command, the quick one evaluates them on inputs')
prop('C03', 'Disorientation verdicts and violation counts are exact',
     'Two adjacent plies satisfy the disorientation guideline exactly when '
     'the angle between their fibre directions (taken as undirected lines) '
     'does not exceed the limit, and a stack satisfies it when every pair of '
     'adjacent plies does. Violation matrices, counts per panel and per '
     'laminate, incremental counts and penalties agree with that definition, '
     'the outermost ply at each surface being left out exactly when two-ply '
     'damage tolerance applies.',
     ['inputs', 'configurations'],
     'all orientations in (-90, 90], all stacks and panel lists, all limits '
     'between 0 and 90 and all damage tolerance settings',
     'no existing test touches disorientation; the wrap-around at +/-90 '
     'degrees and the trimming rules need every pair of angles and every '
     'position',
     [G + 'disorientation.py'],
     [('is_diso, is_diso_ss', G + 'disorientation.py'),
      ('calc_number_violations_diso_mp', G + 'disorientation.py')],
     'all functions under contract are verified for any length')
prop('C05', 'Balance verdict and balance penalty are exact',
     'A stacking sequence is declared balanced exactly when for every angle '
     'other than 0 and 90 degrees it has as many plies at +angle as at '
     '-angle. The balance penalty of one or several laminates is the sum over '
     'the angle pairs of the absolute difference of their ply counts divided '
     'by the total ply count, times the given area weight, and 0 for a '
     'laminate without plies.',
     ['inputs', 'configurations'],
     'all stacks, all ply count vectors and tables, all angle pair tables',
     'the tests sample two stacks and one constraint set',
     [G + 'balance.py'],
     [('is_balanced', G + 'balance.py'), ('calc_penalty_bal', G + 'balance.py')],
     'verified for any number of plies, laminates and angle pairs; real '
     'arithmetic instead of floating point')
prop('C06', '10% rule verdicts, penalties and ply counts are exact',
     'When lamination parameters are not used, a stacking sequence (or ply '
     'counts, or a partial stack with a ply queue) satisfies the 10% rule '
     'exactly when the fraction of plies in each of the directions 0, 90, '
     '45, -45 and +/-45 together reaches its minimum, up to 1e-15, the '
     'paired directions being added up first when they are not '
     'differentiated. The 10% penalty is the sum of the missing fractions '
     '(times the area weight), 0 without active percentages or plies, and '
     'the ply counts per direction are the true numbers of plies.',
     ['inputs', 'configurations'],
     'all stacks, lists of panels, ply count vectors and tables, ply queues, '
     'percentages and symmetry settings',
     'the tests sample a few stacks; fractions, the middle ply of symmetric '
     'laminates and the queue need every length and every combination',
     [G + 'ten_percent_rule.py'],
     [('is_ten_percent_rule', G + 'ten_percent_rule.py'),
      ('calc_penalty_10_ss / _pc', G + 'ten_percent_rule.py'),
      ('calc_ply_counts, calc_n_plies_per_angle', G + 'ten_percent_rule.py')],
     'verified for any number of plies and panels; real arithmetic instead '
     'of floating point (float16 counts are exact up to 2048 plies)')
prop('C08', 'Damage tolerance verdict is exact for every rule',
     'With damage tolerance active, a stack passes rule 1 exactly when both '
     'outer plies are +/-45, rule 3 when the two outer plies on each side are '
     '+/-45, and rule 2 when in addition these two plies have opposite signs; '
     'the single- and two-ply settings of the other program mean rules 1 and '
     '2. With damage tolerance inactive every stack passes, and an unknown '
     'rule is rejected with an error.',
     ['inputs', 'configurations'],
     'all stacks of at least two plies, all rules of both constraint classes',
     'the tests sample two stacks under one rule',
     [G + 'dam_tol.py'], [('is_dam_tol', G + 'dam_tol.py')],
     'verified for any stack length, array and list inputs')

prop('C07', "Abdalla's 10% rule verdicts and penalties are exact",
     "When Abdalla's form of the 10% rule is selected with the minimum "
     'fraction p and a = 1 - 4p, in-plane lamination parameters (V1, V2) '
     'satisfy the rule exactly when a^2 + a V2 - 2 V1^2 >= 0 and V2 <= a (up '
     'to 1e-15). The penalty is 0 for points satisfying it and otherwise the '
     'distance from (V1, V2) to that region, up to the spacing of the points '
     'sampled on its boundary.',
     ['inputs', 'configurations'],
     'all in-plane lamination parameters and stacks, all percentages',
     'the tests sample a few points; the region has several faces',
     [G + 'ten_percent_rule_Abdalla.py', G + 'ten_percent_rule.py'],
     [('is_ten_percent_rule', G + 'ten_percent_rule.py'),
      ('calc_penalty_10_ss', G + 'ten_percent_rule.py')],
     'the verdict is verified; the penalties (nonlinear geometry) are '
     'evaluated as contracts on the real functions within bounds')
prop('C10', 'The final lay-up check rejects exactly the invalid stacks',
     'check_lay_up_rules raises an error exactly when the given stack breaks '
     'one of the guidelines that are active in the constraints and not '
     'switched off by an argument: ply count, damage tolerance, balance, '
     'in-plane orthotropy, disorientation, contiguity and 10% rule. '
     'Otherwise it returns 0.',
     ['inputs', 'configurations'],
     'all stacks and all settings of the active guidelines and of the '
     'switches, both constraint classes',
     'nothing tests the gate; it combines six guidelines and four switches',
     [G + 'one_stack.py'], [('check_lay_up_rules', G + 'one_stack.py')],
     'verified against the contracts of the single guidelines; the '
     'lamination parameters of the missing src.CLA package are an opaque '
     'function')

B = 'src/BELLA/'
Y = 'src/LAYLA_V02/'
prop('C09', 'Ply drop spacing penalties are exact',
     'For one panel boundary the ply drop spacing penalty is the sum, over '
     'consecutive dropped plies of the thinner panel, of the plies missing '
     'between them to reach min_drop, divided by the number of plies of the '
     'layout (plies dropped in both panels are left out). The penalty of a '
     'blending strip is the sum over its boundaries weighted with the '
     'boundary weights, of the previous, current and next ply groups put '
     'together; a whole structure has the penalty of its blending strip. It '
     'is 0 when the rule is inactive.',
     ['inputs', 'configurations'],
     'all ply drop patterns, spacing limits, guide-based ply drop layouts, '
     'boundaries, weights and neighbouring ply groups',
     'no existing test touches the rule; it depends on every pattern of '
     'dropped plies and on the aggregation over boundaries',
     [G + 'ply_drop_spacing.py', B + 'format_pdl.py'],
     [('calc_penalty_spacing_1ss', G + 'ply_drop_spacing.py'),
      ('calc_penalty_spacing', G + 'ply_drop_spacing.py')],
     'contracts evaluated on the real functions: all drop patterns up to 9 '
     'plies, random layouts and structures', level='bounded')
prop('C11', 'Stacking sequence tables and panel stacks convert exactly',
     'The stacking sequence table built from a guide stack and a ply drop '
     'layout has the guide ply where the layout keeps the ply and -1 '
     'elsewhere; the stacks read from a table are its rows without the '
     'dropped plies, in order; replacing the reference panel changes exactly '
     'the columns of its plies. Reducing to the blending strip and extending '
     'back select the rows of the corresponding panels. Ply positions '
     'converted between a panel and the table denote the same plies.',
     ['inputs'],
     'all tables, guide stacks, ply drop layouts, panel mappings and sets of '
     'ply positions',
     'no existing test touches the conversions, on which all blended designs '
     'rest',
     [B + 'format_pdl.py'],
     [('convert_ss_guide_to_sst', B + 'format_pdl.py'),
      ('convert_sst_to_ss', B + 'format_pdl.py'),
      ('pos_in_ss_ref_to_pos_in_sst', B + 'format_pdl.py')],
     'verified for any table size; pos_in_ss_ref_to_pos_in_sst and '
     'pos_in_sst_to_pos_in_panel are evaluated within bounds')
prop('C12', 'Laminates are divided into as few ply groups as possible',
     'The plies of a laminate (half of them when it is symmetric, covering '
     'and middle plies left out) are divided into the smallest number of '
     'groups whose sizes respect the minimum and maximum group sizes, '
     'smaller groups first, at most one group of an intermediate size, and '
     'an error is raised exactly when no such division exists. The group '
     'positions follow each other from the outer surface (symmetric) or '
     'alternate between the bottom and the top (asymmetric). The plies '
     'dropped in each thinner panel are shared between the groups in '
     'proportion to their sizes and the group sizes of every panel add up '
     'to its plies.',
     ['inputs', 'configurations'],
     'all ply counts, group size limits, symmetry and covering settings and '
     'sets of panels',
     'no existing test divides a laminate; the result depends on the '
     'remainders of several divisions',
     [B + 'divide_panels.py', Y + 'divide_laminate_sym.py',
      Y + 'divide_laminate_asym.py'],
     [('divide_panels', B + 'divide_panels.py'),
      ('divide_laminate_sym', Y + 'divide_laminate_sym.py'),
      ('divide_laminate_asym', Y + 'divide_laminate_asym.py')],
     'the group sizes of divide_laminate_sym and _asym are verified for any '
     'ply count and the listed group size limits; divide_panels, '
     'forbidden_ply_counts and the asymmetric positions are evaluated '
     'within bounds')
prop('C13', 'The ply order covers the laminate from the surfaces inwards',
     'The order in which plies are optimised visits, for a symmetric '
     'laminate, the plies from the outer surface to the mid-surface, middle '
     'ply included, and for an asymmetric one the plies from both surfaces '
     'inwards, bottom first, every ply once. It is computed for every panel '
     'of a structure; cut into ply groups it yields the plies of each group '
     'in that order.',
     ['inputs'],
     'all ply counts, numbers of panels and groups',
     'no existing test touches the ply order',
     [B + 'ply_order.py', Y + 'ply_order.py'],
     [('calc_ply_order', B + 'ply_order.py'),
      ('calc_levels', Y + 'ply_order.py')],
     'calc_ply_order of BELLA and LAYLA is verified for any ply count and '
     'number of panels; calc_levels is evaluated within bounds')
prop('C14', 'Ply moments of areas are exact',
     'The normalised moments of area of order 0, 1 and 2 of a ply that lies '
     'between heights b and t of a laminate of total thickness 2 are t - b, '
     't^2 - b^2 and t^3 - b^3 (in absolute value, the parts on both sides of '
     'the mid-surface added, for the unsigned ones), where only the lower '
     'half of the middle ply of a symmetric laminate counts. They are given '
     'in the order of optimisation of the plies, for every panel; the '
     'cumulative moments and the moments of the ply groups are their sums.',
     ['inputs'],
     'all ply counts, ply orders, symmetry settings, panels and groups',
     'no existing test touches the moments',
     [B + 'moments_of_areas.py', Y + 'moment_of_areas.py'],
     [('calc_mom_of_areas, calc_mom_of_areas2', B + 'moments_of_areas.py'),
      ('calc_mom_of_areas', Y + 'moment_of_areas.py')],
     'the moments of BELLA are verified over the reals for any ply count '
     'and number of panels; the cumulative moments and those of LAYLA are '
     'evaluated within bounds')
prop('C15', 'Orthotropy penalties and parameters are exact',
     'The in-plane and out-of-plane orthotropy penalties of laminates are '
     'the means of the absolute values of their lamination parameters 3, 4 '
     'and 11, 12 times the given weights, 0 when the rule is inactive. The '
     'twelve in-plane orthotropy parameters are the absolute ratios of the '
     'coupling terms to the direct terms of the membrane stiffness and '
     'compliance matrices of the laminate.',
     ['inputs', 'configurations'],
     'all lamination parameters, weights, material invariants and switches',
     'no existing test touches orthotropy',
     [G + 'ipo_oopo.py'],
     [('calc_penalty_ipo_oopo_mp', G + 'ipo_oopo.py'),
      ('ipo_param_1_12', G + 'ipo_oopo.py')],
     'verified over the reals; the compliance of laminates with membrane '
     'bending coupling (6 x 6 inverse) is evaluated within bounds')
prop('C16', 'Multi-panel structures derive their data correctly',
     'A structure is rejected unless its panels are connected, have unique '
     'IDs and known neighbours and all boundaries have a non-negative weight '
     '(when weights are given, in either order of the panel IDs). Otherwise '
     'its areas, ply counts, thickest panels, middle plies, boundaries, '
     'boundary weights and neighbours follow from the panels, and its weight '
     'is the sum of density times area times number of plies, also when '
     'computed from a stacking sequence table.',
     ['inputs', 'configurations'],
     'all numbers of panels, ply counts, areas, adjacencies and weights',
     'no existing test builds a structure',
     [B + 'multipanels.py'],
     [('MultiPanel', B + 'multipanels.py'),
      ('calc_weight, calc_weight_from_sst', B + 'multipanels.py')],
     'the methods are verified for any number of panels; the constructor as '
     'a whole is evaluated within bounds')
prop('C17', 'Design constraint objects encode exactly the requested rules',
     'A constraint set keeps exactly the rules and limits it is given: the '
     '10% rule limits are the given percentages as fractions, applied to the '
     '+-45 plies either together or separately, and are all zero when the '
     'rule is off; damage tolerance activates covering with the number of '
     'covering plies its rule needs; limits of inactive rules are neutral '
     'values; the tables of fibre orientations (sorted angles, indices, '
     'positive angles, balanced pairs, cosines and sines of twice and four '
     'times the angles) describe exactly the given set. Percentages outside '
     'their range, unknown rules, meaningless limits and sets of angles '
     'that are not closed under balance, lack the angles the 10% rule needs, '
     'repeat or exceed the allowed range are rejected.',
     ['inputs', 'configurations'],
     'all combinations of rules, limits, percentages and angle sets of both '
     'programs',
     'no existing test builds an unusual constraint set; every guideline '
     'check reads these tables',
     [B + 'constraints.py', Y + 'constraints.py'],
     [('Constraints.__init__, set_percentages, set_fibre_orientations',
       B + 'constraints.py'),
      ('Constraints.__init__, set_percentages, set_fibre_orientations',
       Y + 'constraints.py')],
     'percentages and rule limits are proved for all values; the tables of '
     'fibre orientations are evaluated on random angle sets (bounded)')
prop('C18', 'Panels, targets and parameters normalise their inputs exactly',
     'A panel derives its middle ply, area, weight and lamination parameter '
     'data from its definition; targets of lamination parameters that the '
     'requirements fix are zero and all others are kept; the weights of '
     'lamination parameters removed by symmetry, orthotropy or the fibre '
     'angles vanish, penalties for required orthotropy enter with the given '
     'coefficient, and the weights sum to one. Penalty coefficients of '
     'inactive rules are zero, panel weights are normalised over the '
     'structure, optimiser parameters are kept as given, and values out of '
     'range are rejected.',
     ['inputs', 'configurations'],
     'all panels, target vectors, weights and parameter values',
     'no existing test builds these objects',
     [B + 'panels.py', B + 'obj_function.py', B + 'parameters.py',
      Y + 'targets.py', Y + 'parameters.py'],
     [('Panel', B + 'panels.py'), ('ObjFunction', B + 'obj_function.py'),
      ('Parameters', B + 'parameters.py'),
      ('Parameters', Y + 'parameters.py'), ('Targets', Y + 'targets.py')],
     'proved for all values except the filtering of the weights of the '
     'lamination parameters and the LAYLA parameters, which are evaluated on '
     'random inputs (bounded)')
prop('C19', 'Objective functions are the stated weighted sums',
     'The objective of a panel or stack is the weighted sum of squared '
     '(or, for LAYLA, absolute when requested) differences between its '
     'lamination parameters and their targets; the objective of a structure '
     'is the sum over its panels of the panel weight times the panel '
     'objective times one plus coefficient times penalty for every guideline '
     'penalty. Missing objectives or penalties count as absent.',
     ['inputs'],
     'all lamination parameters, targets, weights, penalties, coefficients '
     'and numbers of panels',
     'no existing test evaluates an objective function; this is the quantity '
     'the optimisers minimise',
     [B + 'objectives.py', Y + 'objectives.py'],
     [('calc_obj_one_panel, calc_obj_each_panel, calc_obj_multi_panel',
       B + 'objectives.py'),
      ('objectives, calc_obj_multi_ss', Y + 'objectives.py')],
     'proved for all sizes and values over the real numbers (floating-point '
     'rounding is not modelled); the variant with missing entries is '
     'evaluated on inputs (bounded)')
prop('C20', 'Beam search pruning keeps exactly the admissible fibre angles',
     'While plies are laid from the surfaces inwards, the pruning keeps, in '
     'their order, exactly the fibre angles that satisfy damage tolerance at '
     'the outer plies and, at the other plies, disorientation and contiguity '
     'with the plies already laid next to them, including across the plane '
     'of symmetry for the last ply of a symmetric laminate. For the last ply '
     'of an asymmetric laminate (BELLA) both neighbours count; the '
     'contiguity of the other plies at the top is not checked yet. A middle ply '
     'is 0 or 90 degrees. When no angle is left, there is no candidate.',
     ['inputs', 'configurations', 'histories'],
     'all sets of candidate angles, all partial laminates of any length, all '
     'levels of the search and all limits',
     'no existing test reaches the pruning; a wrongly removed angle is '
     'silently lost, a wrongly kept one is only seen on rare stacks',
     [B + 'pruning.py', Y + 'pruning.py'],
     [('pruning_diso_contig_damtol', B + 'pruning.py'),
      ('pruning_diso_contig_damtol', Y + 'pruning.py')],
     'each rule is proved alone (contiguity of the last ply for limits 2 to '
     '4, for LAYLA limit 2); the other limits and disorientation together '
     'with contiguity are evaluated on inputs (bounded) or proved by the '
     'thorough command; symmetric laminates only for LAYLA')
prop('C25', 'The blending strip represents the structure exactly',
     'The blending strip of a structure has one panel per distinct ply '
     'count, in increasing order, with the mappings to and from the panels '
     'of the structure; its boundaries are the pairs of distinct ply counts '
     'of neighbouring panels, with the summed boundary weights; panel '
     'weightings are summed, and aggregated for each step of the repair; the '
     'reference panel is the thinnest one with at least the requested ply '
     'count. The step tables list every ply drop from the reference panel '
     'to the thinnest and to the thickest one. A symmetric structure with an '
     'odd ply count below an even one is rejected.',
     ['inputs', 'configurations'],
     'all structures, reference ply counts and symmetry settings',
     'no existing test builds a structure',
     [B + 'reduced_multipanels.py', B + 'multipanels.py'],
     [('ReducedMultiPanel', B + 'reduced_multipanels.py')],
     'contracts of the constructor evaluated on random structures of up to '
     '8 panels (sets of lists and dictionaries keyed by panels are outside '
     'the reach of the verifier)', level='bounded')

prop('C21', 'Ply drop layouts are nested, blended and have the right ply counts',
     'A generated ply drop layout gives every panel of the blending strip '
     'exactly its ply count, and exactly its share in each group of plies; '
     'all plies of a panel also belong to the thicker panels (guide-based '
     'blending); covering plies are never dropped; layouts of symmetric '
     'structures are mirrored, and the middle ply belongs to exactly the '
     'panels that have one. The layouts kept are distinct: first those '
     'without spacing penalty, in the order found, then those of smallest '
     'penalties. Layouts given by the user (stacking sequence table, Excel '
     'file) are read unchanged and are rejected exactly when their numbers '
     'of panels or plies are wrong; the check of the final table rejects '
     'exactly tables with a dropped covering ply or a spacing penalty.',
     ['inputs', 'configurations', 'random choices'],
     'all blending strips, group sizes, covering and symmetry settings, all '
     'random draws',
     'layouts are drawn at random; middle plies, two covering plies or a '
     'full store of imperfect layouts need particular structures, and no '
     'existing test generates a layout',
     [B + 'pdl_tools.py', B + 'pdl_group.py', B + 'pdl_ini.py',
      G + 'one_stack.py'],
     [('create_initial_pdl', B + 'pdl_ini.py'),
      ('randomly_pdl_guide', B + 'pdl_group.py'),
      ('global_pdl_from_local_pdl', B + 'pdl_tools.py'),
      ('check_ply_drop_rules', G + 'one_stack.py')],
     'proved: the renumbering of layouts of up to 3 panels (any number of '
     'plies) and the check of given layouts (up to 2 layouts, any number of '
     'panels and plies). The generators use random sampling, dictionaries '
     'and stacked lists of arrays: contracts evaluated on random structures '
     '(bounded), with the random generator, the penalty and the clock '
     'replaced by scripts for the choice of the layouts kept')
prop('C24', 'Material, ply and buckling data follow laminate theory',
     'A material keeps its constants, rejects non-positive moduli and '
     'thickness and negative densities, and derives the Poisson ratio, '
     'stiffnesses, invariants and missing density (300.5 g/m2 by default). '
     'The table of ply lamination parameters is the moments of areas times '
     'the trigonometric values of the angles, zero for dropped plies. The '
     'buckling factor is the smallest closed-form value over the modes '
     'asked, from the stiffnesses given by the lamination parameters, and '
     'the buckling margin is positive exactly for stable laminates.',
     ['inputs'],
     'all material constants, laminates, loads, dimensions and modes',
     'formulas with a dozen terms are wrong on part of the inputs only '
     '(invalid constants, anisotropic laminates); no existing test '
     'evaluates them',
     [B + 'materials.py', Y + 'materials.py', B + 'lampam_matrix.py',
      'src/buckling/buckling.py'],
     [('Material', B + 'materials.py'), ('Material', Y + 'materials.py'),
      ('calc_delta_lampams', B + 'lampam_matrix.py'),
      ('buckling_factor', 'src/buckling/buckling.py')],
     'proved over the reals: both Material classes, the buckling factor of '
     'a mode, the margin; the tables of ply lamination parameters and the '
     'minimum over modes are evaluated on inputs (bounded)')

prop('C22', 'Repair for balance and the 10% rule enforces both and keeps plies',
     'The minimum ply counts cover the percentages of the 10% rule (paired '
     'for balance, per half for symmetry) with no more plies than rounding '
     'asks. The repair keeps the outer plies, leaves the innermost ones '
     'open, and queues exactly as many plies; stack and queue together are '
     'balanced and satisfy the counts; a laminate satisfying the rules is '
     'returned unchanged. For the rule of Abdalla, plies are exchanged '
     'only to come closer to the feasible region of lamination parameters, '
     'the repair ends, and balance, symmetry and the outer plies of damage '
     'tolerant laminates are kept.',
     ['inputs', 'configurations'],
     'all laminates and percentages with enough plies for the counts',
     'no existing test runs a repair; whether plies run out depends on the '
     'order of the plies, on pairing and on the middle ply',
     ['src/RELAY/repair_10_bal.py'],
     [('calc_mini_10', 'src/RELAY/repair_10_bal.py'),
      ('repair_10_bal_2', 'src/RELAY/repair_10_bal.py'),
      ('repair_10_Abdalla_ipo', 'src/RELAY/repair_10_bal.py'),
      ('calc_ind_plies', 'src/RELAY/repair_10_bal.py')],
     'proved: the minimum ply counts. The repairs pop plies from lists '
     'found by a search over dictionaries: contracts evaluated on random '
     'laminates of up to 40 plies (bounded); the region of Abdalla is '
     'discretised with 40 points', level='bounded')
prop('C23', 'A laminate reported repaired satisfies disorientation and contiguity',
     'The inward and outward repairs return the plies of the laminate and '
     'of the queue, none lost or invented, keep symmetry, the middle ply '
     'and the outer plies of damage tolerant laminates; when they report '
     'success, disorientation and contiguity hold across the whole '
     'laminate (outer plies apart for two-ply damage tolerance). A '
     'symmetric laminate satisfying the rules is returned unchanged, and '
     'when all inner plies can be permuted the repair fails only if no '
     'arrangement exists. Rotations, distances, orders of plies and the '
     'sets of plies to be designed follow their definitions.',
     ['inputs', 'configurations'],
     'all laminates, queues, limits, symmetry and damage tolerance settings',
     'no existing test runs a repair; a window of plies that is too short '
     'shows on rare laminates only, and the result is not checked again',
     ['src/RELAY/repair_diso_contig.py',
      'src/RELAY/repair_diso_contig_tools.py', 'src/RELAY/repair_tools.py',
      'src/RELAY/repair_from_outside_sym.py',
      'src/RELAY/repair_from_outside_asym.py',
      'src/RELAY/repair_from_inside_sym.py',
      'src/RELAY/repair_from_inside_asym.py', 'src/divers/sorting.py'],
     [('repair_diso_contig', 'src/RELAY/repair_diso_contig.py'),
      ('initialise_repair_diso_contig',
       'src/RELAY/repair_diso_contig_tools.py'),
      ('calc_delta_angle', 'src/RELAY/repair_tools.py')],
     'proved: rotations between fibre directions, distances between plies, '
     'objective of the repair. The repairs try plies and permutations in '
     'turn: contracts evaluated on random laminates of up to 16 plies '
     'and enumerated arrangements (bounded)', level='bounded')


prop('C26', 'Repair for in-plane stiffness improves and keeps the guidelines',
     'The repair for in-plane stiffness returns the initial laminate last '
     'and before it laminates each closer to the target in-plane '
     'lamination parameters; the lamination parameters and objective '
     'values listed belong to these laminates. Ply counts, positions left '
     'open, outer plies that must not change, the middle ply, symmetry, '
     'balance and the 10% rule (percentages or Abdalla) are preserved, and '
     'a laminate that need not be balanced stops at one that no single '
     'allowed exchange improves. Tables of objective values and surplus '
     'plies follow their definitions.',
     ['inputs', 'configurations'],
     'all laminates, queues, targets, weightings, percentages and settings',
     'no existing test runs these repairs; the history of laminates and the '
     'surplus counts depend on the sequence of changes made',
     ['src/RELAY/repair_membrane.py', 'src/RELAY/repair_membrane_1_ipo.py',
      'src/RELAY/repair_membrane_1_no_ipo.py',
      'src/RELAY/repair_membrane_1_ipo_Abdalla.py',
      'src/RELAY/repair_membrane_1_no_ipo_Abdalla.py'],
     [('repair_membrane', 'src/RELAY/repair_membrane.py'),
      ('repair_membrane_1_ipo', 'src/RELAY/repair_membrane_1_ipo.py'),
      ('calc_excess_10', 'src/RELAY/repair_membrane_1_no_ipo.py')],
     'proved: surplus plies for the 10% rule for every laminate and queue, '
     'tables of objective values for three and four directions. The '
     'repairs are while loops over these tables: contracts evaluated on '
     'random laminates of up to 20 plies (bounded)', level='bounded')


prop('C27', 'Repair for bending stiffness keeps the rules and does not worsen',
     'Swapping blocks, shifting plies and redesigning inwards return a '
     'laminate with the same plies, symmetry, middle ply and outer plies of '
     'damage tolerant laminates, with disorientation and contiguity still '
     'satisfied where they apply, and never further from the target '
     'out-of-plane lamination parameters than the laminate given. The '
     'change of lamination parameters computed for a swap is the one of the '
     'laminates; blocks of plies divide the laminate, with their neighbours '
     'and possible orientations.',
     ['inputs', 'configurations'],
     'all laminates satisfying the rules, targets, weightings and settings',
     'no existing test runs these repairs; a slip in the position of plies '
     'or neighbours shows on some laminates only',
     ['src/RELAY/repair_flexural.py', 'src/RELAY/repair_flexural_1.py',
      'src/RELAY/repair_flexural_2.py', 'src/RELAY/repair_flexural_3.py',
      'src/RELAY/repair_flexural_tools.py'],
     [('repair_flexural_1', 'src/RELAY/repair_flexural_1.py'),
      ('repair_flexural_2', 'src/RELAY/repair_flexural_2.py'),
      ('find_list_blocks', 'src/RELAY/repair_flexural_tools.py')],
     'nothing proved: matrix products over repeated columns, objects linked '
     'by identifiers and slices exchanged in place are outside the '
     'translator; contracts evaluated on random laminates of up to 20 '
     'plies (bounded)', level='bounded')


prop('C28', 'Designs returned meet the requirements and are reported as they are',
     'The optimiser returns, for each panel of a symmetric structure, a '
     'laminate with the number of plies asked for, in the allowed '
     'directions, blended with the others, with outer plies of damage '
     'tolerance and covering kept; the reference panel satisfies the rules '
     'asked for, and the other panels too, except for disorientation in '
     'panels thinner than the reference and one pair of angled plies left '
     'unpaired. Lamination parameters, ply counts, objectives and '
     'violations reported are those of the laminates. The best of the '
     'completed runs is returned and each run recorded in its row. '
     'Redesigning the plies of a panel one pair away from the reference '
     'finds the best laminate satisfying the rules.',
     ['inputs', 'configurations'],
     'all structures, targets, combinations of rules and search settings',
     'no existing test runs the optimiser; a slip in the tables of a search '
     'shows on some problems only',
     ['src/BELLA/optimiser.py', 'src/BELLA/optimiser_with_one_pdl.py',
      'src/BELLA/results.py', 'src/BELLA/pdl_ini.py',
      'src/RELAY/repair_mp.py', 'src/RELAY/thick_to_thin.py',
      'src/RELAY/thin_to_thick.py', 'src/RELAY/repair_reference_panel.py'],
     [('BELLA_optimiser', 'src/BELLA/optimiser.py'),
      ('BELLA_optimiser_one_pdl', 'src/BELLA/optimiser_with_one_pdl.py'),
      ('BELLA_Results.update', 'src/BELLA/results.py'),
      ('repair_thick_to_thin', 'src/RELAY/thick_to_thin.py'),
      ('repair_thin_to_thick', 'src/RELAY/thin_to_thick.py')],
     'nothing proved: beam searches over lists of lists of arrays are '
     'outside the translator; contracts of the functions evaluated on '
     'random symmetric structures of up to four panels of 12 to 22 plies '
     '(bounded), spreadsheets not written; asymmetric laminates are not '
     'covered', level='bounded')


def main():
    sys.path.insert(0, HERE)
    import glob
    import re
    have = set()
    for p in glob.glob(os.path.join(HERE, 'contracts', '*.py')):
        for m in re.finditer(r'''(?m)^PROPERTY\s*=\s*['"](C\d+)''',
                             open(p).read()):
            have.add(m.group(1))
    na = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in p['mech']],
                    'hook_needed': None}}) + '\n')
    checks = []
    for p in P:
        assert len(p['title']) <= 80, p['title']
        if p['id'] not in have:
            na.append({'property': p['id'],
                       'reason': p['note']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s'
                            % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': T if p['level'] == 'proof' else
            'executable contracts on the real functions, bounded evaluation '
            '(stand-in for deductive verification, see level_note)',
            'level': 'proof' if p['level'] == 'proof' else 'exploration',
            'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "pass"',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
