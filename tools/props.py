NA = {}
P = []


def prop(**k):
    P.append(k)


prop(id='C01', title='Composite nodes combine child results exactly as their kind prescribes',
     statement='In every behaviour tree and at every tick, a sequence stops at the first child that does not succeed, a '
               'priority node at the first that does not fail, and an or-node runs every child and succeeds exactly when '
               'some child succeeded. Children run in their listed order and the composite returns the deciding answer '
               '(success for an exhausted sequence, failure for an exhausted priority node). The memory variants do the '
               'same but resume, after a running answer, at the child that was running and only there.',
     over=['histories', 'inputs'],
     quant='all trees of composites up to three levels, wide (12 children) and deep (9 levels) ones with one or two free leaves, all combinations of success/failure/running/error answers of '
           'every leaf at every tick, all tick histories',
     why='No repository test ticks a composite other than through the one fixed solver tree; running and error answers and '
         'the memory variants are never exercised.',
     files=['b3/composites/sequence.py', 'b3/composites/priority.py', 'b3/composites/ornode.py',
            'b3/composites/memsequence.py', 'b3/composites/mempriority.py', 'b3/core/basenode.py'],
     mech=[('short-circuit loop over children', 'b3/composites/*.py tick()'),
           ('running child index kept on the blackboard', 'MemSequence/MemPriority open() and tick()')],
     obs=['status returned by BehaviorTree.tick', 'which leaves were ticked, in which order'],
     note='Exhaustive over the stated trees, answers and histories (histories merged by reference-model state from the '
          'third tick on); assumes leaf answers are one of the four statuses.',
     tech='stateless exploration of all answer sequences of the real tree, lock-step with a reference interpreter')
prop(id='C02', title='Decorators repeat, invert, limit and time out exactly as configured',
     statement='An inverter swaps success and failure only; a repeat decorator re-runs its child within one tick until its '
               'stop answer or its limit (resuming its count after a running answer); a limiter runs its child to '
               'completion at most the given number of times over the life of the tree and then fails without running it. '
               'A time limit fails a tick that begins after the limit has elapsed since the child was opened, and a wait '
               'node keeps running until its time has elapsed and then succeeds. A limit of zero never runs the child.',
     over=['histories', 'schedules', 'configurations'],
     quant='every decorator, limits 0..4 (30 with a fixed child) and unlimited, times of fractions of a second to minutes, nested in each other, two in one tree, and over/under composites, every child answer '
           'sequence and every clock advance from a small set between ticks',
     why='The tests use one decorator with one limit and never look at a zero limit, a running child or the clock.',
     files=['b3/decorators/inverter.py', 'b3/decorators/limiter.py', 'b3/decorators/maxtime.py', 'b3/decorators/repeater.py',
            'b3/decorators/repeatuntilfailure.py', 'b3/decorators/repeatuntilsuccess.py', 'b3/actions/wait.py'],
     mech=[('loop counter on the blackboard', 'b3/decorators/*.py open()/tick()'), ('start time on the blackboard', 'MaxTime.open, Wait.open')],
     obs=['status returned by BehaviorTree.tick', 'which leaves were ticked, how often'],
     note='Exhaustive within the stated limits, answer horizon and clock steps; the clock is a virtual one that only moves '
          'between ticks.',
     tech='stateless exploration of all answer and clock choices, lock-step with a reference interpreter')
prop(id='C03', title='Node life cycle callbacks and counters are exact on every history',
     statement='Every execution of a node enters it, opens it exactly when it is not still open from a running answer, ticks '
               'it, closes it exactly when its answer is not running, and exits it. The tree reports how many node '
               'executions each tick made and which nodes remain open, every node counts its ticks and its successes, a '
               'sequence, priority or or-node costs the sum of the costs of the children it ran, and the blackboard adds '
               'up the cost of every execution. A leaf that counts its ticks per sensing state gets the success ratios and '
               'utilities of exactly these counts, until they are reset. The log of a tree, when on, names the nodes that '
               'succeeded (or also those that failed), in the order in which they ended.',
     over=['histories'],
     quant='all histories of ticks of all trees in the bound, with all leaf answers',
     why='No test observes callbacks, counters or open nodes at all.',
     files=['b3/core/basenode.py', 'b3/core/tick.py', 'b3/core/behaviortree.py', 'b3/composites/sequence.py',
            'b3/composites/priority.py', 'b3/composites/ornode.py'],
     mech=[('_execute drives enter/open/tick/close/exit', 'b3/core/basenode.py'), ('open node stack and node count', 'b3/core/tick.py')],
     obs=['callbacks of user-defined nodes', 'node_count, open_nodes, TotalCost on the blackboard', 'N_ticks_all, N_success, N_suc2, Cost, prob(), prob_state(), get_Utility() of nodes', 'log_file'],
     note='Exhaustive within the stated trees and histories. The open-node list is not judged for trees with an or-node.',
     tech='stateless exploration of all answer sequences, event-by-event comparison with a reference interpreter')
prop(id='C04', title='Blackboard cells are private to their scope, tree, node and board',
     statement='A value written to the blackboard is read back from the same key and scope (global, per tree, per node of a '
               'tree) until overwritten or incremented, and from no other key, scope or blackboard. Consequently trees that '
               'share one blackboard, even through the same node objects, behave on every interleaving of their ticks as '
               'each would alone.',
     over=['histories', 'schedules'],
     quant='all sequences of writes (of empty values too), increments and decrements over all scopes, and all interleavings of the ticks of two stateful trees '
           'with all leaf answers',
     why='Tests use a single tree with a single global scope and one history.',
     files=['b3/core/blackboard.py', 'b3/core/basenode.py', 'b3/core/behaviortree.py'],
     mech=[('nested scope dictionaries', 'b3/core/blackboard.py _get_memory')],
     obs=['Blackboard.get', 'statuses of two trees ticked alternately'],
     note='Exhaustive for sequences of 3 (thorough 4) operations and schedules of 4 (5) ticks of two trees.',
     tech='exhaustive operation sequences and schedules on the real blackboard vs. a flat reference map')
prop(id='C05', title='A saved behaviour tree loads back to the same tree',
     statement='Dumping a tree of composite, inverter and parameterless action nodes and loading the result, through JSON, '
               'yields a tree with the same structure, child order, ids, titles, descriptions and properties, which runs '
               'the same leaves and gives the same answer. Dumping does not change the tree, and dumping the loaded tree '
               'gives the same data again.',
     over=['inputs'],
     quant='all trees to depth three, wide and deep ones, nodes at several places, custom nodes, with and without titles, descriptions and properties',
     why='No test dumps or loads a tree.',
     files=['b3/core/behaviortree.py'],
     mech=[('dump walks the tree, load rebuilds it', 'BehaviorTree.dump / load')],
     obs=['dump data', 'behaviour of the loaded tree'],
     note='Exhaustive over the stated trees; nodes whose constructor takes limits or times are outside the format.',
     tech='exhaustive enumeration of trees, round trip on the real code, differential execution')
prop(id='C06', title='Symbolic and numeric transform routines agree with rigid body geometry',
     statement='Every symbolic (_S) and numeric (_N) routine of the transform library that builds rotations, roll-pitch-yaw, '
               'translations, DH links, inverse transforms and velocity Jacobians yields, for every angle and length, the '
               'matrix rigid body geometry (Craig\'s modified DH convention) defines; symbolic and numeric versions agree. '
               'Undoing the compact s_i/c_ij notation restores the original matrix, and an angle is wrapped to the same '
               'angle within half a turn. A matrix in which a symbol is left is refused where numbers are needed.',
     over=['inputs'],
     quant='all arguments on the stated grids, including angles several turns away, and all products of two elementary '
           'transforms for the inverse',
     why='The tests evaluate a few routines at one or two arguments and never the numeric ones against the symbolic ones.',
     files=['ikbtbasics/pykinsym.py'],
     mech=[('paired _S and _N routines', 'ikbtbasics/pykinsym.py')],
     obs=['matrices and angles returned by the routines'],
     note='Exhaustive over the argument grid; at least three angles per argument decide identities affine in cos/sin.',
     tech='exhaustive enumeration of argument grids on the real routines against an independent geometric model')
prop(id='C07', title='Forward kinematics and all eight matrix equations are identities',
     statement='For every DH table of revolute, prismatic and fixed rows, with zero, right, straight and general twist angles '
               'and any offsets, the symbolic forward kinematics equals the product of the link transforms for every joint '
               'configuration, uses no undefined symbol, and agrees with numeric forward kinematics. Both sides of all eight '
               'matrix equations handed to the solver are equal for every configuration when the target is the pose of that '
               'configuration.',
     over=['inputs', 'configurations'],
     quant='all DH tables in the bound and all joint configurations of a grid deciding the identities',
     why='The tests look at fixed link templates of one or two robots.',
     files=['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py', 'ikbtbasics/ik_classes.py'],
     mech=[('link chain and its inverses', 'mechanism.forward_kinematics, get_mequation_set'), ('fixed-twist parameters', 'mechanism.__init__')],
     obs=['T_06 and T_i,i+1', 'Td and Ts of the eight matrix equations', 'forward_kinematics_N'],
     note='Exhaustive over the enumerated tables and grids (three angles per revolute, three lengths per prismatic joint).',
     tech='exhaustive enumeration of DH tables times joint grids, real symbolic matrices against an independent numeric model')
prop(id='C08', title='The symbolic Jacobian is the velocity map of the forward kinematics',
     statement='For every DH table and joint configuration, the symbolic 6x6 Jacobian maps the joint rates to the linear and '
               'angular velocity of the last link frame, expressed in that frame: revolute rows turn about and prismatic '
               'rows slide along their z axis.',
     over=['inputs', 'configurations'],
     quant='all DH tables in the bound and all joint configurations of the grid',
     why='No repository test evaluates the Jacobian.',
     files=['ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
     mech=[('outward velocity recursion', 'mechanism.forward_kinematics'), ('coefficient extraction', 'ManipJacobian_S')],
     obs=['mechanism.J66'],
     note='Exhaustive over the enumerated tables and grids.',
     tech='exhaustive enumeration of DH tables times joint grids against an independent geometric Jacobian')
LEAFNOTE = 'Exhaustive over the equation grammar of the check (coefficients, constants, sides, arrangements, decoys); symbols stand for generic nonzero numbers.'
LEAFTECH = 'exhaustive enumeration of equation lists driven through the real behaviour-tree leaf, judged numerically at several true configurations'
prop(id='C09', title='The algebra solver solves exactly the equations linear in the unknown, correctly',
     statement='Offered an unknown (length or angle) and equations, the algebra leaves solve it if an equation is linear in it '
               '(any symbolic coefficient, constant, side of the equals sign or factoring) and decline equations where it occurs '
               'nonlinearly, inside a sine/cosine, or cancels. The single solution satisfies the equation for every parameter '
               'value, does not mention the unknown itself or an unsolved unknown, and is registered once with the robot.',
     over=['inputs'], quant='all equation lists of the bounded grammar',
     why='The unit test solves three fixed equations.',
     files=['ikbtleaves/algebra_solver.py', 'ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py'],
     mech=[('identifier collects solvable equations, solver applies solve()', 'algebra_id / algebra_solve'), ('registration', 'unknown.set_solved')],
     obs=['unknown.solved, solutions', 'leaf status', 'Robot.solution_nodes'], note=LEAFNOTE, tech=LEAFTECH)
prop(id='C10', title='The arcsine/arccosine solver solves A f(u)+B=C on both branches, nothing else',
     statement='Offered an angle u and equations, the sine/cosine leaves handle any equation reducible to A sin(u)+B=C or '
               'A cos(u)+B=C, on either side and with any symbolic coefficients, and give two solutions, which both satisfy that '
               'equation and include the true angle for every configuration. Equations in which u occurs in any other way are '
               'declined without leaving traces of a solution or raising an error.',
     over=['inputs'], quant='all equation lists of the bounded grammar',
     why='The unit test checks one equation per function and never evaluates the result.',
     files=['ikbtleaves/sincos_solver.py'],
     mech=[('match on the equation with sin and cos', 'sincos_id / sincos_solve')],
     obs=['unknown.solutions / sincos_solutions', 'leaf status'], note=LEAFNOTE, tech=LEAFTECH)
prop(id='C11', title='The solver for A sin(u)+B cos(u)=C finds both angles, and only for that form',
     statement='Any equation A sin(u)+B cos(u)=C (either side, any symbolic coefficients, C zero or not) yields solutions that '
               'are right for every configuration: two for C not zero, half a turn apart for C zero, each satisfying the '
               'equation and the true angle among them. Equations with products, powers, other angles of u or u itself outside '
               'sine and cosine are declined, and an unusable equation does not keep a usable one from being solved.',
     over=['inputs'], quant='all equation lists of the bounded grammar',
     why='The unit test checks two equations symbolically.',
     files=['ikbtleaves/sinANDcos_solver.py'],
     mech=[('coefficient collection and two-solution formula', 'sinandcos_id / sinandcos_solve')],
     obs=['unknown.solutions', 'leaf status', 'Robot.solution_nodes'], note=LEAFNOTE, tech=LEAFTECH)
prop(id='C12', title='The arctangent solver pairs a sine with a cosine equation correctly',
     statement='Two equations A sin(u)+D=C1 and B cos(u)+E=C2, in any order, side or list, give the one true angle in the right '
               'quadrant. When both share an unsolved factor, two angles half a turn apart are given, the true one among them '
               'for either sign of the factor. Pairs with different factors, unsolved remainders, or where u occurs '
               'in any other way are declined; unusable equations do not hide a usable pair.',
     over=['inputs'], quant='all equation lists of the bounded grammar',
     why='The unit test checks a handful of pairs and not their numeric value.',
     files=['ikbtleaves/tan_solver.py'],
     mech=[('matching A sin + C, B cos + C', 'tan_id'), ('atan2 with common factor analysis', 'tan_solve')],
     obs=['unknown.tan_solutions, tan_eqnlist', 'leaf status'], note=LEAFNOTE, tech=LEAFTECH)
prop(id='C13', title='Two simultaneous sine-cosine equations are solved to the one true angle',
     statement='A pair A sin(u)+B cos(u)+D=C1, A cos(u)-B sin(u)+E=C2 (any overall signs, order, side, symbolic coefficients) '
               'is recognised among the equations of an unknown and solved to the single angle that satisfies both for every '
               'configuration. A pair with other coefficients, mixed signs, or further terms in u is never solved wrongly.',
     over=['inputs'], quant='all equation lists of the bounded grammar',
     why='The unit test checks one pair.',
     files=['ikbtleaves/two_eqn_m7.py'],
     mech=[('pair recognition and determinant formula', 'simu_id / simu_solver')],
     obs=['unknown.solutions', 'leaf status', 'Robot.solution_nodes'], note=LEAFNOTE, tech=LEAFTECH)
prop(id='C14', title='Competing answers are ranked: the arctangent wins, once, and is right',
     statement='When both the arctangent and the arcsine/arccosine leaves answer for an unknown, ranking keeps one of their '
               'answers unmodified: the single arctangent solution before two-valued ones, and among equally many the one '
               'depending on fewer unknowns. The kept solutions are right for the equations they came from, are recorded with '
               'these equations and registered once, and an unknown already solved is not solved again when offered again.',
     over=['inputs', 'histories'], quant='all lists of up to three one-unknown and two two-unknown equations of a vocabulary, each offered twice',
     why='The unit test ranks two hand-made unknowns.',
     files=['ikbtleaves/rank_leaf.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtbasics/kin_cl.py'],
     mech=[('ranking and clearing', 'rank.tick'), ('OrNode of the two solvers', 'ikSolver.py tree')],
     obs=['unknown.solutions, tan_solutions, sincos_solutions, solveorder', 'Robot.solution_nodes'],
     note='Exhaustive over ordered selections from a vocabulary of 18 equations.',
     tech='exhaustive enumeration of ordered equation selections on the real subtree, two ticks each')
prop(id='C15', title='Every unsolved unknown keeps being offered; solved ones never block it',
     statement='Whatever the history of unknowns being solved and added while the tree runs, the assigner offers an unsolved '
               'unknown on every tick as long as there is one, never a solved one while another is unsolved, and every unsolved '
               'unknown is offered within one round of the list.',
     over=['histories', 'schedules'], quant='all histories up to the depth bound of solving/adding moves between ticks, from 1 to 5 unknowns; '
     'all solved/unsolved patterns up to 9 unknowns',
     why='The unit tests tick the assigner on one list.',
     files=['ikbtleaves/assigner_leaf.py'],
     mech=[('round-robin counter on the blackboard', 'assigner.tick')],
     obs=['curr_unk on the blackboard', 'assigner status'],
     note='Exhaustive up to depth 7 (thorough 10) with merging of states that have equal futures.',
     tech='explicit-state exploration of the real assigner under an adversarial environment')
prop(id='C16', title='The solution set is the full product of branches, each version well defined',
     statement='However the solved unknowns depend on one another, and whether each has one or two solutions, the final list of '
               'poses has one entry per combination of branches, no two alike, naming every solved unknown once. Every '
               'version used is defined exactly once, from versions defined before it, and evaluates to the value the '
               'branch formulas give. Dependencies, edges of the solution graph, solving order and version counts are recorded.',
     over=['inputs', 'histories'], quant='all dependency graphs of up to 4 (thorough 5) unknowns with one or two solutions each, in all listing orders up to 3 unknowns; '
     'chains, stars and independent sets of 6 and 7',
     why='The unit test of the solution graph is an empty placeholder.',
     files=['ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/solutionGraphV3.py', 'ikbtfunctions/helperfunctions.py'],
     mech=[('row duplication and version naming', 'Robot.create_solution_set / make_LHS_versions'), ('dependency bookkeeping', 'unknown.set_solved')],
     obs=['Robot.solutionSet, FinalEqnMatrix, nversions, notation_graph_edges, solution_nodes'],
     note='Exhaustive over the stated graphs; formulas affine with coefficients making all branches distinct.',
     tech='exhaustive enumeration of solution graphs through the real bookkeeping against nested enumeration of branches')
prop(id='C17', title='The generated Python code computes exactly the real solutions',
     statement='For every solution graph, the generated Python file is valid, its function accepts a 4x4 target and returns '
               'one list of joint values (in alphabetical order of the unknowns) for each combination of branches that is '
               'real at that target, and no other; False when there is none. This holds for every mix of solution methods, '
               'robot name and with or without stored parameter values; other targets are refused.',
     over=['inputs'], quant='all solution graphs of the bound over a vocabulary of 16 solution formulas, at targets in and out of reach',
     why='No test runs or even compiles generated code.',
     files=['ikbtfunctions/output_python.py'],
     mech=[('code text from FinalEqnMatrix and the solution set', 'output_python_code')],
     obs=['return value of the generated function'],
     note='Exhaustive over all graphs of 1-2 formulas, and graphs of 3-4 (thorough 5) over a reduced vocabulary; 5-7 two-valued unknowns; '
          'parameter values symbolic, decimal, whole, zero and negative, or for some of the parameters.',
     tech='exhaustive enumeration of solution graphs; generated code executed and compared with nested enumeration of branches')
prop(id='C18', title='The generated C++ code compiles and computes exactly the real solutions',
     statement='For every solution graph, the generated C++ file compiles once the parameters have values, stays within the '
               'solution array it declares, fills one row per combination of branches, in which values out of reach are NaN, with '
               'the joint values the formulas give, and answers 1 exactly if some combination is real at the target.',
     over=['inputs'], quant='all solution graphs of the bound over a vocabulary of 16 solution formulas, at targets in and out of reach',
     why='No test compiles generated code.',
     files=['ikbtfunctions/output_cpp.py'],
     mech=[('code text from FinalEqnMatrix and the solution set', 'output_cpp_code')],
     obs=['compiler verdict', 'array and return value of the compiled function'],
     note='Exhaustive over all graphs of 1-2 formulas, and graphs of 3-4 (thorough 5) over a reduced vocabulary; two graphs of 7 unknowns.',
     tech='exhaustive enumeration of solution graphs; generated code compiled, run and compared with nested enumeration of branches')
prop(id='C19', title='The LaTeX report is well formed and states what was derived',
     statement='The LaTeX reports of the inverse and of the forward kinematics are well-formed documents. Read back, their DH '
               'table, pose matrix and Jacobian equal the mechanism\'s for every configuration, every generic and every '
               'version equation equals the derived one, and unknowns (in solution order), solution methods, dependencies and '
               'solution sets are those of the robot.',
     over=['inputs'], quant='all solution graphs of the bound over a vocabulary of 16 solution formulas, with six mechanisms',
     why='No test reads a generated report.',
     files=['ikbtfunctions/output_latex.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/pykinsym.py'],
     mech=[('report text', 'output_latex_solution / output_FK_equations'), ('equation text', 'kequation.LaTexOutput'), ('compact notation', 'notation_squeeze')],
     obs=['the .tex files, parsed and evaluated'],
     note='Exhaustive over graphs of up to 3 (thorough 4) formulas, and of 5-6 two-valued unknowns (64 solution sets); equations compared by '
          'value at three targets.',
     tech='exhaustive enumeration of solution graphs; generated report parsed back and evaluated against the model')

prop(id='C20', title='The kinematics cache is transparent and survives crashes',
     statement='Whatever runs, changes of the parameter values, deletions of the cache, runs of other robots and crashes at any point '
               '(including in the middle of writing the file) went before, getting a robot\'s kinematics gives exactly what a fresh '
               'computation gives: matrices, equations, unknowns with the sum-of-angles ones, declared parameters and current '
               'parameter values. A DH table that differs in any cell from the stored one is refused, never silently replaced.',
     over=['histories', 'crash points', 'faults'],
     quant='all histories of up to 3 runs (same, new or fewer values, changed DH table, other robot) and deletions; all ordered pairs of 20 similar robot names; a crash before, '
           'after and in the middle of every change of a file or directory; every cell of the DH table',
     why='No test interrupts a run, or runs twice with a changed description.',
     files=['ikbtbasics/ik_classes.py', 'ikSolver.py', 'fkOnly.py'],
     mech=[('pickle file in fk_eqns/', 'kinematics_pickle'), ('DH comparison', 'check_the_pickle')],
     obs=['the objects kinematics_pickle returns', 'SystemExit of check_the_pickle'],
     note='Exhaustive within the bound over three two-joint robots; a crash ends the process with a prefix of the write on disk, no '
          'reordering of writes.',
     tech='exhaustive crash-point and history exploration of the real code; crash points are the interpreter\'s own file events')
prop(id='C21', title='Sum-of-angles rewriting keeps every equation true and defines each angle once',
     statement='When a sum (or difference) of joint angles is replaced by a new unknown, in the initial scan or while solving, every '
               'rewritten equation stays true at every joint configuration with the new unknown at its defined value; each new unknown '
               'is listed once, unsolved, with one defining equation, true, and the index of its joints. Sums of two or three joint '
               'angles do not remain; differences, multiples and constants in an angle do no harm.',
     over=['inputs', 'histories'],
     quant='all histories of up to 3 expressions over 21 angle arguments in one robot; all pairs of 12 entry patterns on either side of '
           'up to two matrix equations, ticked to rest; ten DH tables with parallel and antiparallel axes',
     why='Tests sample four expressions; the while-solving transform is not tested at all.',
     files=['ikbtbasics/ik_classes.py', 'ikbtleaves/sum_id.py'],
     mech=[('scan and substitution', 'sum_of_angles_sub, Robot.sum_of_angles_transform'), ('leaf', 'sum_id.tick')],
     obs=['expressions and matrix equations after the transform', 'Robot.kequation_aux_list', 'list of unknowns'],
     note='Exhaustive over the stated histories; identities decided at two generic configurations.',
     tech='explicit-state exploration of transform histories on the real code with a truth invariant')
prop(id='C22', title='Substitution and sum-of-squares transforms only derive true, simpler equations',
     statement='The substitution transform replaces an entry of the first matrix equation only by an equivalent one with fewer unsolved '
               'unknowns, comes to rest, leaves no such replacement undone, and rebuilds the equation lists. The sum-of-squares '
               'transform either fails and adds nothing, or adds one equation, true at every configuration at which the given equations '
               'are, with one unsolved unknown; it finds a usable pair among any others. Neither marks an unknown solved.',
     over=['inputs', 'histories'],
     quant='all ordered triples of 15 related entries in a matrix equation with varying solved unknowns, ticked to rest; all ordered lists '
           'of up to 3 of 8 equations, three definitions of the combined angle, several current unknowns',
     why='Two hand-made examples are tested, and not for truth.',
     files=['ikbtleaves/sub_transform.py', 'ikbtleaves/x2y2_transform.py'],
     mech=[('subexpression search', 'sub_transform.tick'), ('pairwise sum of squares', 'x2z2_transform.tick')],
     obs=['matrix equations, auxiliary equations and lists on the blackboard after each tick'],
     note='Exhaustive within the bound; identities decided at two generic configurations.',
     tech='explicit-state exploration of the real transforms with a truth invariant')
prop(id='C23', title='Equation lists hold exactly the equations with 1, 2 and more unsolved unknowns',
     statement='At any point of a solution, scanning puts every equation of the robot, including the sum-of-angles equations, in the list '
               'of its number of unsolved unknowns, once, and nothing else in any list (sum-of-angles equations of three or more in the updating leaf\'s list); equations without unknowns in none; shorter '
               'equations come before longer ones. As unknowns get solved, or equations added or rewritten, the lists follow. Scanning changes '
               'neither equations nor unknowns.',
     over=['inputs', 'histories'],
     quant='all placements of up to 2 (sets of 3) of 15 equations in one or two matrix equations, with and without sum-of-angles equations, '
           'over histories of unknowns being solved, all 120 orders for two big systems; every split of up to four unknowns over the two '
           'sides; all histories of three changes (equations added or rewritten, another robot) between scans; unknowns marked in vain; three scanning entry points',
     why='One test looks at two entries of one robot\'s lists.',
     files=['ikbtbasics/ik_classes.py', 'ikbtleaves/updateL.py', 'ikbtfunctions/helperfunctions.py'],
     mech=[('scan', 'Robot.scan_for_equations, scan_Mequation, erank'), ('leaf', 'updateL.tick'), ('counting', 'count_unknowns, get_unknowns, get_deps')],
     obs=['the three lists returned or on the blackboard'],
     note='Exhaustive within the bound; equations with the same unknown on both sides are not enumerated.',
     tech='explicit-state exploration of scan histories against a counting model')
prop(id='C24', title='On every small robot the solver derives nothing false and solves all joints',
     statement='For every robot of a bounded family of two to four joint arms, in whatever order its unknowns are listed, solving runs to '
               'the end without an exception; after every solver step every equation the solver holds is true at generic '
               'configurations of the real arm, an unknown called solved has its true value among its solutions, which contain solved '
               'unknowns only, and stays solved unchanged; every joint of an arm without redundancy gets solved, and the '
               'generated code returns the joint values of every pose of a joint grid.',
     over=['inputs', 'histories'],
     quant='all 25 + 64 two-joint and 125 three-joint arms (revolute/prismatic, parallel/perpendicular/antiparallel/skew axes, offsets), '
           'orders of the unknowns, fixed links; thorough adds all wide pairs, all orders and all 625 four-joint arms; 3 configurations '
           'per leaf execution; joint grids',
     why='Tests run the solver to the end on one robot and compare with stored results; the interplay of the solvers on other arms is '
         'never run.',
     files=['ikSolver.py', 'ikbtbasics/ik_classes.py', 'ikbtleaves/algebra_solver.py', 'ikbtleaves/sincos_solver.py',
            'ikbtleaves/tan_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/x2y2_transform.py', 'ikbtleaves/sub_transform.py',
            'ikbtleaves/sum_id.py', 'ikbtleaves/assigner_leaf.py', 'ikbtleaves/rank_leaf.py', 'ikbtleaves/comp_detect.py'],
     mech=[('solver tree', 'the tree of ikSolver.py, ticked to its end'), ('leaves', 'ikbtleaves/*.tick'),
           ('code generation', 'output_python_code')],
     obs=['after every leaf execution: matrix, auxiliary and listed equations, solutions of the unknowns', 'return value of the generated '
          'python code'],
     note='Exhaustive over the stated robots and orders; truth is decided at three generic configurations; arms with a rank-deficient '
          'Jacobian need not be solved; no claim that every returned row reaches the pose.',
     tech='explicit-state exploration of complete solver runs of the real code with an invariant monitored after every transition')
prop(id='C25', title='Each robot of the library has one consistent description, whatever was asked',
     statement='Every robot the library lists can be asked for; its DH table has six rows, each joint is in the right column of one row with '
               'matching joint type, the unknowns are the joints in order and start unsolved, every symbol in the table is declared and '
               'has a value where values are given. Asking for one robot, and solving it, changes nothing in what later requests for it or '
               'another return. An unknown name is refused with the list of robots.',
     over=['inputs', 'histories'],
     quant='all robots listed; all histories of two requests and all A-B-A histories (thorough: all histories of three) of the 31 robots, with '
           'the unknowns of each request used up in between; some 300 names close to those listed',
     why='Tests look at a few robots, each once; module-level lists shared between robots are invisible to them.',
     files=['ikbtfunctions/ik_robots.py'],
     mech=[('library', 'robot_params')],
     obs=['DH table, joint types, parameters, values and unknowns returned'],
     note='Exhaustive within the bound; numerical values are checked for presence, not against data sheets.',
     tech='exhaustive exploration of request histories on the real code')
prop(id='C26', title='On library robots no step derives anything false and the code finds the pose',
     statement='Solving each robot of the library, after every solver step every equation held is true at generic configurations of that '
               'robot, an unknown called solved has its true value among its solutions and stays solved unchanged; all joints are solved '
               '(but for four robots without a known closed form); the generated python code returns the joint values for every pose of '
               'a joint grid; the order in which the unknowns are listed does not matter.',
     over=['inputs', 'histories'],
     quant='17 robots of the library (thorough: all 31, and ten of them in three more orders of the unknowns); 3 configurations per leaf '
           'execution; joint grids of 2 to 3 values per joint',
     why='Tests solve one robot to the end and compare symbolic results with stored ones; that the results are true is not tested.',
     files=['ikSolver.py', 'ikbtfunctions/ik_robots.py', 'ikbtbasics/ik_classes.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py',
            'ikbtleaves/x2y2_transform.py', 'ikbtleaves/sum_id.py', 'ikbtfunctions/output_python.py'],
     mech=[('solver tree', 'the tree of ikSolver.py, ticked to its end'), ('leaves', 'ikbtleaves/*.tick'), ('code generation',
           'output_python_code')],
     obs=['after every leaf execution: equations and solutions', 'return value of the generated python code'],
     note='Exhaustive over the library; truth is decided at three generic configurations with the values of the library.',
     tech='explicit-state exploration of complete solver runs of the real code with an invariant monitored after every transition')
prop(id='C27', title='The forward kinematics job writes a program that computes the pose of the arm',
     statement='For every arm, fkOnly.py ends without an exception and writes one python program and one report. The program declares every '
               'parameter and every joint variable exactly once, leaves parameters without a value deliberately undefined, defines '
               'sum-of-angles variables by their joints, computes and prints the 4x4 pose of the arm for every value of the joints, and '
               'its Matrix objects are independent of each other. A second run, from the stored kinematics, writes the same files.',
     over=['inputs', 'histories'],
     quant='two and three joint arms over all axis relations, at the base or behind fixed links, with all, some, no or zero parameter values, joint '
           'and robot names with and without underscore; ten robots of the library (thorough: all; four joint arms); joint grids',
     why='No test runs the forward kinematics job or executes what it writes.',
     files=['fkOnly.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_latex.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py'],
     mech=[('job', 'fkOnly.py'), ('python code', 'output_FK_python_code'), ('report', 'output_FK_equations')],
     obs=['generated program: its syntax tree, values of T06 and printed output', 'generated report'],
     note='Exhaustive over the stated arms; poses compared with an independent numeric forward kinematics on joint grids that decide the '
          'trigonometric identities.',
     tech='exhaustive exploration of job histories of the real code; the generated program is executed on every grid point')
prop(id='C28', title='Diagnostics are only output: debug printing and logs change no outcome',
     statement='With the debug output of every node switched on, every solver leaf answers, solves, registers and leaves the unknowns and '
               'equation lists exactly as with it off, the whole solver executes the same leaves with the same results and writes the same '
               'code, and nothing raises. The result log of a behaviour tree holds exactly one line per node result its level asks for, '
               'in the order the nodes finished, and does not influence the tree.',
     over=['inputs', 'configurations', 'histories'],
     quant='the equation lists of C09 to C14 (quick: all shapes, a part of the coefficient products), the small arms of C24 (quick: every '
           'ninth), debug on and off; all trees of two levels with every answer, log level 0, 1, 2, debug on and off, two ticks',
     why='The tests run with debug output off; the log is never read.',
     files=['ikbtleaves/tan_solver.py', 'ikbtleaves/algebra_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/sinANDcos_solver.py',
            'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/x2y2_transform.py', 'ikbtleaves/sub_transform.py', 'ikbtleaves/sum_id.py',
            'b3/core/basenode.py', 'ikSolver.py'],
     mech=[('debug switches', 'BHdebug, LeafDebug, SolverDebug'), ('result log', 'BehaviorTree.log_flag / log_file')],
     obs=['answers, unknowns, lists, generated code of paired runs', 'log file'],
     note='Every case of the stated sets is run with diagnostics off and on and the two executions are compared step by step.',
     tech='exhaustive enumeration of paired executions (self-composition) of the real code')
prop(id='C29', title='What was tried before never changes how an unknown is solved',
     statement='Whatever unknowns and equation lists the solver leaves were given before, successfully or in vain, an unsolved unknown is '
               'solved from its current equation list with the same answer, solutions and recorded equation as if it were the first one '
               'ever looked at; in particular an equation a leaf cannot use never blocks the unknown when a usable one comes. A solved '
               'unknown is not solved or registered again.',
     over=['histories', 'inputs'],
     quant='all histories of two attempts over 23 equation lists for each of two unknowns (one- and two-unknown lists, with the other unknown '
           'being solved on the way), of three attempts over 11 lists (thorough: over all; four attempts over 11)',
     why='The tests give each leaf one equation list on fresh unknowns; the solver offers the same unknown up to 60 times with changing lists.',
     files=['ikbtleaves/algebra_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/rank_leaf.py',
            'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtbasics/kin_cl.py'],
     mech=[('marks kept on the unknown between attempts', 'unknown.solvable_*, readytosolve, solvemethod, eqntosolve'),
           ('solver tree', 'worktools in ikSolver.py')],
     obs=['leaf tree status, unknown.solved, solutions, eqntosolve', 'Robot.solution_nodes'],
     note='Every history in the bound is executed and each step compared with the same step on a fresh robot.',
     tech='exhaustive exploration of all operation sequences of the real leaves up to a depth, differential against the fresh state')
prop(id='C30', title='A job leaves what it would leave in an empty directory, whatever ran before',
     statement='Whatever solver and forward kinematics jobs ran before in a directory (of the same robot or others, with other parameter '
               'values, with its stored kinematics deleted, or dying while it wrote its results or the stored kinematics), a job that ends '
               'leaves exactly the programs and reports for its robot that it leaves in an empty directory; the files of other robots and '
               'of the other kind of job are untouched, and no other files appear.',
     over=['histories', 'crash points'],
     quant='all histories of up to two jobs (thorough three) out of seven before four final jobs, on three two-joint robots with similar '
           'names; a crash before, after and in the middle of every change of a file of the solver and of the forward kinematics job, '
           'with and without stored kinematics, before either kind of job',
     why='No test runs a complete job, let alone two in one directory or one that dies.',
     files=['ikSolver.py', 'fkOnly.py', 'ikbtbasics/ik_classes.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_cpp.py',
            'ikbtfunctions/output_latex.py'],
     mech=[('stored kinematics', 'ik_classes.kinematics_pickle'), ('output files by robot name', 'output_*.py')],
     obs=['files in CodeGen/ and LaTex/ after the job', 'exit of the job'],
     note='Exhaustive within the bound; jobs do not run at the same time; a crash leaves a file as it was, empty or half written.',
     tech='exhaustive exploration of job histories and crash points of the real programs, one process per job, differential against the empty directory')
prop(id='C31', title='Completion is reported exactly when every unknown is solved',
     statement='The completion detector answers success exactly when every unknown in the current list, joints and sums of angles, is solved '
               '(failure exactly then in its fail-when-done mode), whatever marks and solutions vain attempts left on the others and whatever '
               'it saw before; looking changes nothing. A solving loop that ends in it runs until all unknowns are solved, no longer, '
               'and at most its number of rounds.',
     over=['histories', 'inputs'],
     quant='all combinations of new, recognised, vainly attempted and solved unknowns in lists of up to 4 (thorough 6), one or two odd ones in lists of up to 14, all pairs (triples) '
           'of lists one after another, both modes; all scripts of three (four) rounds in which unknowns get solved and added, 1-4 rounds',
     why='No test ticks the detector with an incomplete list, and none runs a loop to an end that is not complete.',
     files=['ikbtleaves/comp_detect.py', 'b3/decorators/repeatuntilsuccess.py', 'ikSolver.py'],
     mech=[('counts solved unknowns', 'comp_det.tick'), ('outer loop', 'topnode in ikSolver.py')],
     obs=['status of the detector and of the loop', 'number of rounds'],
     note='Exhaustive within the bound.',
     tech='exhaustive exploration of histories of the real node against a counting model')
