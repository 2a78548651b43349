#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

A property whose check file checks/<id>.py does not exist is listed as not_applicable.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, technique=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': ['pypower/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'pypower/' + w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None},
              '_note': note, '_technique': technique})


TESTS = 'The tests solve a handful of stored cases (mainly the 9-, 24- and 30-bus systems); '

prop('P01', 'Newton power flow returns a true solution or says it failed',
     'When the AC power flow by Newton\'s method reports success, the reported bus voltages satisfy the nonlinear nodal power '
     'balance of the given network to the requested tolerance, with every generator voltage set-point and the reference angles held; '
     'started near an operating point it succeeds within the iterations the method needs, '
     'with every linear-solver choice, and when it does not converge it says so.',
     ['inputs', 'configurations'],
     'all networks (any topology, numbering, transformers, phase shifters, shunts, several units per bus, several reference buses, '
     'out-of-service and isolated elements), starting points, tolerances, iteration limits and linear solvers',
     TESTS + 'a fixed network cannot tell a correct Jacobian or mismatch from one which is wrong only with phase shifters, several '
     'reference buses, tolerances other than the default, or non-convergence.',
     ['newtonpf.py', 'runpf.py', 'pplinsolve.py', 'makeYbus.py', 'makeSbus.py', 'bustypes.py'],
     [('Newton iteration and convergence test', 'newtonpf.py'), ('solver driver', 'runpf.py'), ('linear solver selection', 'pplinsolve.py')],
     'Random networks of 2-9 energised buses with a known exact solution; the mismatch is recomputed by an independent element-by-element model.')

prop('P02', 'Fast-decoupled and Gauss-Seidel power flows agree with Newton',
     'Whenever the XB or BX fast-decoupled or the Gauss-Seidel power flow reports success, the voltages and flows solve the same '
     'power flow problem as Newton\'s method to the requested tolerance; each succeeds on well-conditioned cases in the number '
     'of iterations its method needs, and reports failure when the iteration limit is too low.',
     ['inputs', 'configurations'],
     'all networks, starting points, algorithms, tolerances and iteration limits',
     TESTS + 'each algorithm is run once on one case, so an error that appears only for phase shifters, shunts, networks without PQ or PV buses, or '
     'at the iteration limit is not seen.',
     ['fdpf.py', 'gausspf.py', 'makeB.py', 'runpf.py'],
     [('P-theta / Q-V half iterations', 'fdpf.py'), ("B' and B'' matrices", 'makeB.py'), ('Gauss-Seidel sweep', 'gausspf.py')],
     'Differential against an independent model of each method, run on the same case.')

prop('P03', 'DC power flow is the exact linear model',
     'The DC power flow returns angles, branch flows and slack generation that satisfy the linear DC network equations '
     '(reactance, tap ratio, phase shift, shunt conductance) exactly, with the reference angle kept, unit voltage magnitudes, zero reactive '
     'quantities, losses zero, generator schedules kept except for one unit at each reference bus, and zero flow on out-of-service branches.',
     ['inputs', 'configurations'],
     'all networks with at least one reference bus, any numbering and status pattern',
     TESTS + 'the DC flow is compared with a stored answer for one case without phase shifters or out-of-service elements.',
     ['dcpf.py', 'makeBdc.py', 'rundcpf.py', 'runpf.py'],
     [('DC angle solve', 'dcpf.py'), ('B matrices and phase shift injections', 'makeBdc.py'), ('DC branch of the driver', 'runpf.py')],
     'Random networks against an independently stamped dense DC model.')

prop('P04', 'The reported AC power flow state is consistent with its voltages',
     'After an AC power flow, the complex flow at both ends of every branch, the output of the slack unit and the reactive output of '
     'every in-service unit follow from the reported voltages: bus balances close, several units at one bus share '
     'reactive power in proportion to their reactive ranges, everything out of service reports zero, and input data columns are untouched.',
     ['inputs', 'configurations'],
     'all networks and generator placements, with or without pre-existing result columns',
     TESTS + 'no tested case has several units with unequal or zero ranges at a bus, or out-of-service units there.',
     ['pfsoln.py', 'runpf.py', 'int2ext.py'],
     [('solution update', 'pfsoln.py'), ('external result assembly', 'int2ext.py')],
     'All reported quantities are recomputed from the reported voltages by an independent model.')

prop('P05', 'Reactive limit enforcement ends within limits or reports infeasibility',
     'With reactive limit enforcement on, a successful power flow has every in-service unit within its reactive limits (to '
     'tolerance), units moved to a limit are at that limit, buses whose units are not limited keep their voltage set-point, active '
     'schedules other than the slack are unchanged, the power balance holds, the reference angle is kept and the case keeps '
     'its bus types and demands; with enforcement off nothing is limited.',
     ['inputs', 'histories', 'configurations'],
     'all networks, limit patterns and both enforcement modes (all violations at once, or the largest one at a time)',
     'No existing test turns enforcement on; the loop of conversions between bus types is a history a few samples cannot cover.',
     ['runpf.py', 'bustypes.py', 'pfsoln.py'],
     [('limit enforcement loop', 'runpf.py')],
     'Validity predicate on every outcome plus a reference model of the enforcement loop where the outcome is numerically unambiguous.')

prop('P06', 'External/internal conversion is lossless and consistent',
     'Converting a case to internal numbering and back returns exactly the original data, including extra columns, generator costs (active and '
     'reactive), areas, constraint matrices and user fields, whatever the numbering, order and status of elements; '
     'the internal case holds exactly the in-service elements numbered consecutively, and converting data fields either way moves the same rows and columns.',
     ['inputs', 'histories'],
     'all cases (numbering, row orders, isolated buses, out-of-service elements, optional fields), dense and sparse data, all orderings and axes, '
     'and sequences of conversions',
     TESTS + 't_ext2int compares one case with stored arrays, with dense fields only.',
     ['ext2int.py', 'int2ext.py', 'e2i_data.py', 'i2e_data.py', 'e2i_field.py', 'i2e_field.py', 'get_reorder.py', 'set_reorder.py'],
     [('reordering', 'get_reorder.py'), ('inverse reordering', 'set_reorder.py'), ('conversion and its record', 'ext2int.py')],
     'Round trips and an independent model of the internal case.')

prop('P07', 'Solutions do not depend on how the case is written down',
     'Renumbering buses, permuting rows of any table, reversing the order of parallel elements, adding or deleting out-of-service or '
     'isolated elements, and solving an already solved case again leave the physical solution of power flow, DC power '
     'flow and optimal power flow unchanged; inputs and option dictionaries passed by the caller are never modified.',
     ['inputs', 'histories'],
     'all cases and all renamings, permutations and irrelevant additions, for the power flow and optimal power flow drivers',
     TESTS + 'each is run in one numbering and row order.',
     ['runpf.py', 'opf.py', 'ext2int.py', 'int2ext.py', 'loadcase.py'],
     [('driver', 'runpf.py'), ('driver', 'opf.py'), ('internal conversion', 'ext2int.py')],
     'Metamorphic relations between runs of the real drivers.')

prop('P08', 'Network matrices describe the network',
     'The bus and branch admittance matrices, DC susceptance matrices and phase-shift injections, fast-decoupled matrices, nodal injection vector and bus '
     'type lists are what the branch, bus and generator data define, for every status, tap, shift, shunt, line charging and parallel branch.',
     ['inputs'], 'all internally numbered networks',
     'The existing tests use one case and mostly compare quantities derived from the matrices.',
     ['makeYbus.py', 'makeBdc.py', 'makeB.py', 'makeSbus.py', 'bustypes.py'],
     [('admittance stamping', 'makeYbus.py'), ('DC stamping', 'makeBdc.py')],
     'Differential against element-by-element stamping in double precision.')

prop('P09', 'PTDF and LODF predict DC flows exactly',
     'For any slack bus or slack weighting, PTDF times nodal injections gives the change of DC branch flows for the corresponding balanced transfer, '
     'and LODF gives the change of flow on every branch after the outage of another, equal to re-solving the DC '
     'flow without that branch; self entries are -1.',
     ['inputs'], 'all connected networks, slack choices (bus number, weight vector, weight matrix) and non-islanding outages',
     'Tests check the shape or one case only.',
     ['makePTDF.py', 'makeLODF.py', 'makeBdc.py'],
     [('PTDF', 'makePTDF.py'), ('LODF', 'makeLODF.py')],
     'Differential against dense DC solves, before and after each outage.')

prop('P10', 'First derivatives are the derivatives',
     'The partial derivatives returned for complex bus injections, branch flows, branch currents, squared flow magnitudes, and for the optimal '
     'power flow cost and constraint functions equal the derivatives of those functions at every voltage profile, in '
     'sparse and dense form, for every network and every flow-limit type.',
     ['inputs', 'configurations'], 'all networks, voltage profiles, costs and constraint options',
     'The Jacobian test perturbs one case at one point with a loose tolerance, and no test covers the OPF callbacks.',
     ['dSbus_dV.py', 'dSbr_dV.py', 'dIbr_dV.py', 'dAbr_dV.py', 'opf_costfcn.py', 'opf_consfcn.py'],
     [('bus injection Jacobian', 'dSbus_dV.py'), ('branch flow Jacobian', 'dSbr_dV.py'), ('OPF cost gradient', 'opf_costfcn.py'), ('OPF constraint gradients', 'opf_consfcn.py')],
     'Oracle: complex-step style product-rule formulas written per element, and extrapolated central differences of an independent function.')

prop('P11', 'Second derivatives are the derivatives of the first',
     'The second derivatives of bus injections, branch flows and currents and squared flows, and the Hessian of the optimal power flow '
     'Lagrangian, equal the derivatives of the corresponding first derivatives contracted with the given multipliers, for every '
     'network, multiplier vector, voltage profile, cost and flow-limit type.',
     ['inputs', 'configurations'], 'all networks, voltage profiles, multipliers, costs and constraint options',
     'The Hessian test perturbs one case at one point, and no test covers the OPF Hessian callback.',
     ['d2Sbus_dV2.py', 'd2Sbr_dV2.py', 'd2Ibr_dV2.py', 'd2ASbr_dV2.py', 'd2AIbr_dV2.py', 'opf_hessfcn.py'],
     [('bus injection Hessian', 'd2Sbus_dV2.py'), ('OPF Lagrangian Hessian', 'opf_hessfcn.py')],
     'Oracle: extrapolated central differences of an independently written Lagrangian gradient.')

prop('P12', 'Saved cases load back as the same case',
     'A case saved by savecase to a Python or MAT file and read by loadcase is the same case: all tables, costs, areas, '
     'user constraint, variable and cost data and scalars equal (exactly in MAT files; in Python files to the nine significant digits written, result columns to four decimals), '
     'and solving either gives the same result; loadcase accepts '
     'dicts, file names with or without extension, and both case versions, never modifies what it is given, and reports missing or malformed input by '
     'its error code.',
     ['inputs', 'histories'], 'all valid cases, solved or unsolved, with optional fields, in either format, and all malformed inputs',
     'Tests load stored cases; savecase is only run on one case.',
     ['savecase.py', 'loadcase.py'],
     [('writer', 'savecase.py'), ('reader', 'loadcase.py')],
     'Round trip through real files in a scratch directory.')

prop('P13', 'The interior point solver returns optimal points of convex programs',
     'For convex quadratic and smooth nonlinear programs, a reported success of the interior point solver (called directly, through the '
     'QP wrapper or with any calling form) is a feasible point satisfying the first-order optimality conditions with the returned '
     'multipliers, of correct sign and complementarity; infeasible or unbounded problems are not reported as solved; the reported history and the printed log are those of the documented iteration, with and without step control.',
     ['inputs', 'configurations'], 'all feasible and infeasible LPs/QPs and convex NLPs with bounds, equalities, ranges, fixed variables, sparse and dense data, '
     'with or without step control',
     'Tests solve about ten stored problems.',
     ['pips.py', 'qps_pips.py', 'qps_pypower.py'],
     [('primal-dual interior point iteration', 'pips.py'), ('QP interface', 'qps_pips.py'), ('solver dispatch', 'qps_pypower.py')],
     'KKT certificate evaluated by the check, plus scipy HiGHS for LP feasibility and optimal value.')

prop('P14', 'DC optimal power flow finds the optimum of the DC problem',
     'A successful DC optimal power flow satisfies the DC network equations, all generator, branch-flow and angle-difference limits, its '
     'reported cost is the cost of the dispatch and is the minimum over all feasible dispatches, and nodal prices and '
     'limit multipliers satisfy the optimality conditions; an infeasible problem is reported as failed.',
     ['inputs', 'configurations'], 'all networks, polynomial and piecewise linear convex costs, limits, fixed units, dispatchable loads, out-of-service elements',
     'Tests compare a few stored cases with stored answers.',
     ['dcopf_solver.py', 'opf_setup.py', 'opf.py', 'opf_execute.py', 'rundcopf.py', 'makeAy.py', 'makeAang.py'],
     [('DC OPF problem build and solve', 'dcopf_solver.py'), ('constraint set-up', 'opf_setup.py')],
     'Differential against an independently built LP/QP (scipy HiGHS for piecewise linear, KKT certificate for quadratic).')

prop('P15', 'AC optimal power flow returns a feasible KKT point',
     'A successful AC optimal power flow satisfies the AC power balance, voltage, generation, branch-flow (apparent, active or current) and '
     'angle-difference limits; its objective equals the cost of the dispatch, and the reported nodal prices and limit multipliers satisfy '
     'the first-order optimality conditions of that problem with correct signs and complementarity.',
     ['inputs', 'configurations'], 'all networks, costs, limits, flow-limit types, fixed or dispatchable units and solver step options for which a solution is reported',
     'Tests compare one or two stored cases with stored answers.',
     ['opf.py', 'opf_setup.py', 'opf_execute.py', 'pipsopf_solver.py', 'update_mupq.py', 'runopf.py', 'opf_consfcn.py', 'opf_costfcn.py'],
     [('OPF execution', 'opf_execute.py'), ('solver interface', 'pipsopf_solver.py'), ('multiplier bookkeeping', 'update_mupq.py')],
     'KKT certificate by an independent model on networks with a feasible point by construction.')

prop('P16', 'User constraints and costs are honoured by the OPF',
     'Additional linear constraints, additional variables with bounds, and generalised user costs (given in the case or as '
     'positional arguments) are imposed on the documented variables: the solution satisfies them, the objective includes exactly the '
     'documented user cost, and redundant user constraints or zero costs leave the solution unchanged, for out-of-service and renumbered elements too.',
     ['inputs', 'configurations'], 'all constraint matrices, bounds, cost transformations and element orders',
     'Tests use one user constraint and one user cost on one case.',
     ['opf_setup.py', 'opf_args.py', 'opf_model.py', 'ext2int.py', 'opf_costfcn.py'],
     [('argument normalisation', 'opf_args.py'), ('user constraint and cost set-up', 'opf_setup.py')],
     'Documented formula of the user cost and constraints evaluated on the reported solution; metamorphic relations.')

prop('P17', 'The OPF model object assembles what was added',
     'After any sequence of additions of variable, constraint and cost blocks to an OPF model, counts, index ranges, '
     'bounds, starting point, the stacked linear constraints and the aggregate cost parameters describe exactly the blocks added, in order, with '
     'variable subsets mapped correctly.',
     ['histories', 'inputs'], 'all sequences of block additions, with empty and partially specified data',
     'One test builds one model.',
     ['opf_model.py'],
     [('block registry', 'opf_model.py')],
     'Model-based testing: the same operations on a plain list of blocks.')

prop('P18', 'Cost functions are evaluated and converted faithfully',
     'Total cost, polynomial cost and its derivatives, splitting of active and reactive costs, polynomial to piecewise linear conversion and '
     'scaling or shifting of cost functions equal their mathematical definitions for every row type, order, and number '
     'of segments, including extrapolation beyond the ends.',
     ['inputs'], 'all polynomial and piecewise linear cost tables, outputs and modifications',
     'Only a few rows of a few stored tables are evaluated.',
     ['totcost.py', 'polycost.py', 'pqcost.py', 'poly2pwl.py', 'modcost.py'],
     [('evaluation', 'totcost.py'), ('modification', 'modcost.py')],
     'Scalar evaluation by definition.')

prop('P19', 'Reserve co-optimisation meets the requirements at least cost',
     'An OPF with fixed zonal reserve requirements returns reserves that meet every zone\'s requirement, stay within each unit\'s '
     'reserve and ramp limits and within its unused capacity, with reserve cost included exactly; '
     'reserve prices and multipliers are consistent, and turning reserves on and off again leaves the case as it was.',
     ['inputs', 'histories'], 'all networks, zone matrices, requirements, reserve limits, costs, statuses and orders of units',
     'One stored case with stored answers.',
     ['toggle_reserves.py', 'runopf_w_res.py', 'add_userfcn.py', 'run_userfcn.py'],
     [('reserve callbacks', 'toggle_reserves.py')],
     'DC problems: independent LP/QP; AC problems: validity predicate.')

prop('P20', 'Interface flow limits are enforced',
     'An OPF with interface limits returns a solution in which the DC flow on every interface, the signed sum of the flows '
     'on the branches in its definition, is within its limits, reports that flow, and equals the plain OPF when the limits are not binding.',
     ['inputs', 'histories'], 'all networks, interface definitions (branch directions, several interfaces), limits and statuses',
     'One stored case with stored answers.',
     ['toggle_iflims.py'],
     [('interface callbacks', 'toggle_iflims.py')],
     'Validity predicate and comparison with an independent DC problem.')

prop('P21', 'DC lines obey their flow, loss and limit model',
     'In power flow and OPF with DC lines enabled, every in-service line injects and withdraws the power its flow and linear loss model define, '
     'holds its scheduled flow in the power flow, is within its limits in the OPF, and out-of-service lines carry nothing; '
     'turning DC lines on and off leaves the case as it was.',
     ['inputs', 'histories'], 'all networks, line sets, limits, losses and statuses',
     'One stored case with stored answers.',
     ['toggle_dcline.py'],
     [('DC line callbacks', 'toggle_dcline.py')],
     'Equivalent networks with explicit dummy generators.')

prop('P22', 'Continuation power flow traces true solutions',
     'Every point a continuation power flow reports is a power flow solution of the base case with '
     'injections moved by the reported loading factor towards the target, under every parameterisation and with adaptive steps; the reported '
     'maximum loading is the largest traced, and a run to a fixed loading ends exactly there.',
     ['inputs', 'configurations'], 'all base/target pairs, step sizes, parameterisations and stopping rules',
     'One stored case is traced with three parameterisations.',
     ['runcpf.py', 'cpf_predictor.py', 'cpf_corrector.py', 'cpf_p.py', 'cpf_p_jac.py', 'cpf_callbacks.py'],
     [('predictor', 'cpf_predictor.py'), ('corrector', 'cpf_corrector.py')],
     'Each reported point is put into an independent power balance.')

prop('P23', 'Unit decommitment never makes the solution worse',
     'An OPF with unit decommitment returns a solution that is feasible for the original case, shuts down only '
     'units which are allowed to be, costs no more than the OPF with all units on, and is locally optimal: '
     'shutting down any one more unit held at its minimum output does not lower the cost.',
     ['inputs'], 'all networks, costs with start-up/no-load terms, and minimum output levels',
     'One stored case.',
     ['uopf.py', 'runuopf.py', 'runduopf.py', 'fairmax.py'],
     [('decommitment loop', 'uopf.py')],
     'Differential against separate OPF runs with fixed commitments.')

prop('P24', 'Loads are totalled and scaled exactly',
     'Total fixed and dispatchable load per zone, per bus or in total equals the sum over the case, and scaling loads by factor '
     'or to a target quantity, of fixed, dispatchable or both kinds, in active power or in both active and reactive power, reaches exactly the '
     'target in the chosen zones and leaves everything else (power factors, limits of other elements) unchanged.',
     ['inputs', 'configurations'], 'all cases, zone assignments, scaling options and kinds of load',
     'One stored case.',
     ['scale_load.py', 'total_load.py', 'isload.py'],
     [('scaling', 'scale_load.py'), ('totals', 'total_load.py')],
     'Element-by-element reference model.')

prop('P25', 'User callbacks run in order at each stage',
     'Registering and removing callbacks keeps each stage\'s list in registration order: a function which is already there is added again only '
     'when multiple registrations are allowed, removal takes out the last registration of that function only, running a stage passes the data '
     'through every registered callback with its arguments in that order, and registered callbacks are run by the solution drivers at their documented stages.',
     ['histories'], 'all sequences of add, remove and run over all stages',
     'No test of ordering or removal.',
     ['add_userfcn.py', 'remove_userfcn.py', 'run_userfcn.py'],
     [('registration', 'add_userfcn.py'), ('removal', 'remove_userfcn.py')],
     'Model-based testing against a plain list.')

prop('P26', 'Options reach the solvers as given',
     'An options vector holds the documented default of everything not set and the given value of everything set (a given vector is the base instead of the '
     'defaults), and building or using it never modifies the caller\'s data. Every driver solves with the values given: the interior point method stops at the '
     'first iterate that meets the tolerances, or at the iteration limit, with step control only when asked for; requested derivatives are those at the solution. '
     'Output options, verbosity and unknown options never change a result, and nothing is printed when output is turned off.',
     ['inputs', 'configurations'], 'all sets of options, base vectors, drivers and cases',
     'Tests set a few options and never look at the effect of tolerances, limits or output options.',
     ['ppoption.py', 'pipsopf_solver.py', 'dcopf_solver.py', 'qps_pypower.py', 'opf_execute.py', 'rundcopf.py', 'rundcpf.py', 'runduopf.py', 'runopf_w_res.py'],
     [('option vector', 'ppoption.py'), ('AC OPF solver options', 'pipsopf_solver.py'), ('DC OPF solver options', 'dcopf_solver.py')],
     'Reference dictionary; iteration history of an unrestricted run; silent against verbose run; independent derivatives.')

prop('P27', 'The printed report states the solution',
     'The report printed for any solved or failed case, under any combination of report options, is produced without failure and the '
     'numbers in its summaries, bus, branch, generator, area and limit sections are those of the results.',
     ['inputs', 'configurations'], 'all results of power flow and OPF (AC and DC) and report options',
     'Output is not tested beyond running the default options on stored cases.',
     ['printpf.py'],
     [('report writer', 'printpf.py')],
     'Parsing the report and recomputing each number from the results.')

prop('P28', 'Capability, dispatchable-load and angle constraints mean what they say',
     'The linear constraints built for generator capability curves, constant power factor dispatchable loads, branch angle differences and '
     'piecewise linear costs admit exactly the points the case data describe.',
     ['inputs', 'configurations'], 'all generator tables, branch limits, costs and candidate points',
     'Only reached through one stored OPF case.',
     ['makeApq.py', 'makeAvl.py', 'makeAang.py', 'makeAy.py', 'hasPQcap.py', 'isload.py'],
     [('capability curves', 'makeApq.py'), ('constant power factor', 'makeAvl.py'), ('angle limits', 'makeAang.py'), ('cost variables', 'makeAy.py')],
     'Point-membership test against a geometric definition.')

prop('P29', 'The command line runs the same computation as the API',
     'Each command-line entry point parses its options into the same options as the API, solves the named case, writes the same result file and '
     'report, and signals failure by its exit status.',
     ['inputs', 'configurations'], 'all option combinations and case files',
     'No test runs the command line.',
     ['main.py'],
     [('option parsing', 'main.py')],
     'Differential between the command line and the API.')

prop('P30', 'Inconsistent data and unknown requests are reported, consistent ones pass in silence',
     'Tables, user matrices, model parts, extension data and algorithm codes which do not fit together are named on standard error or by an exception '
     '(capability curves, dispatchable load limits, bus order and types, cost rows, zones, callback stages, reorder dimensions, case numbering state, '
     'switches without data, sizes of user matrices and model sets, reserves and interfaces, unknown algorithms), wherever the inconsistency is; consistent data cause no complaint.',
     ['inputs', 'configurations'], 'all data the routines accept, with an inconsistency at any place or none',
     'No test passes inconsistent data.',
     ['hasPQcap.py', 'makeAvl.py', 'ext2int.py', 'opf_args.py', 'opf_setup.py', 'opf_model.py', 'opf_execute.py', 'scale_load.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py', 'add_userfcn.py', 'qps_pypower.py', 'cpf_callbacks.py'],
     [('argument checks', 'opf_args.py'), ('model checks', 'opf_model.py'), ('data checks', 'hasPQcap.py')],
     'One inconsistency is injected into otherwise consistent random data; the oracle is which one was injected.')

TECH = 'property-based testing: Hypothesis-generated cases against an explicit oracle, with shrinking to a replay file'


def main():
    here = lambda i: os.path.exists(os.path.join(V, 'checks', i.lower() + '.py'))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = {'version': 1,
         'setup_cmd': './check --selftest',
         'checks': [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                     'thorough_cmd': './check %s --tier thorough' % p['id'],
                     'technique': p['_technique'] or TECH,
                     'level': 'exploration',
                     'level_note': p['_note'] + ' Seeded random search over generated cases: it shows the property held on every case explored, '
                     'not that it holds for all. Trusts numpy/scipy and the reference code in /verif/vlib.'}
                    for p in P if here(p['id'])],
         'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no check registered yet')} for p in P if not here(p['id'])],
         'notes': 'No hooks in /repo. Every check imports pypower from /repo source at run time (no byte code cache).'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NA = {}
if __name__ == '__main__':
    main()
