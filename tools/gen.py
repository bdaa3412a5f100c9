"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/mfpml/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, obs, state=(), level='proof', note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over.split(), 'text': qtext},
                   why_tests_cant=why, anchors={'files': [M + f for f in files],
                                                'mechanism': [{'name': n, 'where': M + w} for n, w in mech],
                                                'state': [{'name': a, 'meaning': b, 'where': M + c} for a, b, c in state],
                                                'observe_at': obs, 'hook_needed': None}), level, note))


SF, MF = 'design_of_experiment/sf_samplers.py', 'design_of_experiment/mf_samplers.py'
GP, HK, SK, CK = 'models/gaussian_process.py', 'models/hierarchical_kriging.py', 'models/scale_kriging.py', 'models/co_kriging.py'
MFG, KER, BAS = 'models/mf_gaussian_process.py', 'models/kernels.py', 'models/basis_functions.py'
SA, CA, MA = 'optimization/sf_uncons_acqusitions.py', 'optimization/sf_cons_acqusitions.py', 'optimization/mf_acqusitions.py'
SB, CB, MB = 'optimization/sf_uncons_bo.py', 'optimization/sf_cons_bo.py', 'optimization/mf_uncons_bo.py'
EA = 'optimization/evolutionary_algorithms.py'
PF, PS, PC, PM = 'problems/functions.py', 'problems/sf_functions.py', 'problems/sf_cons_functions.py', 'problems/mf_functions.py'

prop('C01', 'Sampling plans have the asked size and stay in the design space',
     'Latin-hypercube, random and Sobol sampling, single- or multi-fidelity, return for every fidelity exactly the asked number of '
     'points, one coordinate per dimension, every coordinate between the lower and the upper bound of its own dimension; a Latin '
     'hypercube of n points has exactly one point in each of the n equal slices of every dimension. The fixed-number sampler '
     'repeats the flattened design space the asked number of times. A multi-fidelity plan lists the highest fidelity first and a '
     'request with more high-fidelity than low-fidelity points is refused.',
     'inputs configurations', 'every design space (any bounds low < high, any dimension, list or array), every sample count, seed '
     'and skip, every number of fidelities with one shared or separate design spaces, nested or not',
     'the tests draw one 2-d plan per sampler and look at shapes or seeds',
     [SF, MF], [('scaling to the design space', SF + ':scale_samples'), ('plans of each fidelity', MF + ':get_samples')],
     ['array returned by get_samples'])
prop('C02', 'Nested plans: high-fidelity points are among the low-fidelity points',
     'In a nested multi-fidelity plan every point of a fidelity is, coordinate for coordinate, a point of the next lower fidelity, '
     'and no low-fidelity point is used twice. The low-fidelity plan of a nested request is the same plan that a non-nested '
     'request with the same seed gives.',
     'inputs configurations', 'every design space shared by the fidelities, every non-decreasing list of sample counts (two or more '
     'fidelities), every seed, Latin hypercube and Sobol',
     'the tests compare one nested plan with stored numbers', [MF],
     [('subset of the next lower fidelity', MF + ':_get_nested_samples')], ['list returned by get_samples'])
prop('C03', 'A seed fixes the sampling plan',
     'Asking any sampler twice with the same arguments and the same seed gives identical plans, whatever was drawn in between, '
     'whatever the state of the global random generator, and whether the sampler object is reused or new; this includes nested '
     'multi-fidelity plans. Different seeds give different randomised plans (multi-fidelity plans also differ between fidelities '
     'when they are Latin hypercubes).',
     'inputs configurations histories', 'every sampler, seed, count, design space, and every history of other draws before and '
     'between the two requests', 'the tests request each plan once', [SF, MF],
     [('seeding', SF + ':LatinHyperCube.get_samples, RandomSampler.get_samples, SobolSequence.get_samples'),
      ('seeding per fidelity', MF + ':_get_non_nested_samples, _get_nested_samples')], ['array returned by get_samples'])
prop('C04', 'Arguments are left alone and results do not share memory with them',
     'Samplers, surrogates, acquisition functions, optimizers and test problems never change the arrays and lists handed to them '
     '(design spaces, sample counts, training data, query points). Sampling plans, predictions and function values share no memory '
     'with the arguments. Changing the training arrays of a Gaussian-process regression '
     'after training does not change its predictions.',
     'inputs histories', 'every call of the public API with every argument value', 'the tests build fresh arguments for every call',
     [SF, MF, GP, HK, SK, CK, SA, CA, MA, EA, PS, PM],
     [('copy of the sample counts', MF + ':get_samples'), ('own copy of the data', GP + ':train')],
     ['arguments before and after each call'])
prop('C05', 'The RBF kernel is exp(-sum_d w_d (x_d - y_d)^2), symmetric, unit diagonal',
     'For every pair of point sets the kernel matrix has one row per point of the first and one column per point of the second set '
     'with entry exp(-sum_d w_d (x_d-y_d)^2), plus the fixed 1e-10 jitter where row and column number coincide, with w = 10 to the '
     'power of the exponents in use. Entries lie in (0, 1 + 1e-10], the matrix of a set with itself is symmetric with constant '
     'diagonal, and setting the exponents or passing them in the call gives the same matrix.',
     'inputs configurations', 'every dimension, every number of points, every real coordinate, every exponent vector within or '
     'outside the bounds', 'the tests compare a few matrices of 1-d or 2-d points', [KER],
     [('kernel matrix', KER + ':RBF.__call__, RBF.get_kernel_matrix'), ('parameters', KER + ':RBF.set_params')],
     ['matrices returned by the kernel'], [('raw parameters', 'log10 of the weights', KER)])
prop('C06', 'Regression bases: one, linear, all products of degree two, row by row',
     'The ordinary basis is a single 1 per point, the linear basis is (1, x_1..x_d) and the quadratic basis '
     'has, beside these, every product x_i x_j with i <= j exactly once, for every point. Each row depends on the same row of the input alone.',
     'inputs', 'every number of points, dimension and coordinate',
     'the tests evaluate one small array per basis', [BAS], [('basis values', BAS + ':Ordinary, Linear, Quadratic')],
     ['array returned by a basis'])
prop('C07', 'Gaussian-process prediction equals the kriging equations',
     'After training, the predicted mean is the universal-kriging mean and the predicted variance is the kriging variance (never '
     'below zero) plus the noise variance, for the regression basis, kernel, noise level and design-space normalisation in use, '
     'in the units of the training responses. A given noise level is used as given (relative to the response spread); a learned '
     'one lies within its search bounds.',
     'inputs configurations', 'every data set with non-constant responses, every kernel and basis, noise zero / given / learned, '
     'any optimizer', 'the tests compare a few predictions to stored numbers', [GP],
     [('posterior', GP + ':predict'), ('training', GP + ':train, _logLikelihood')], ['predict'],
     [('beta, gamma, sigma2, K, L', 'solved kriging system', GP)])
prop('C08', 'Hierarchical kriging: low-fidelity trend scaled by least squares plus kriging',
     'The high-fidelity mean is beta times the low-fidelity prediction plus the kriging correction, with beta the generalised '
     'least-squares factor, and the variance is the kriging variance with the low-fidelity prediction as its only trend, plus the '
     'noise variance, in the units of the high-fidelity responses. The low-fidelity prediction is the one of a Gaussian process '
     'trained on the low-fidelity data only.',
     'inputs configurations', 'every pair of data sets with non-constant responses, noise zero / given / learned, any optimizer and '
     'any user supplied low-fidelity model', 'the tests compare a few predictions to stored numbers', [HK, MFG],
     [('posterior', HK + ':predict'), ('training', HK + ':_train_hf, _logLikelihood')], ['predict', 'predict_lf'])
prop('C09', 'Scaled kriging: rho times low fidelity plus a discrepancy model',
     'The prediction is rho times the low-fidelity prediction plus the prediction of a discrepancy model trained on the '
     'high-fidelity responses minus rho times the low-fidelity predictions at the same points; the variances add (the low-fidelity '
     'one times rho squared). rho is 1 unless it is searched, and then within its bounds and minimising the chosen criterion over '
     'them.',
     'inputs configurations', 'every pair of data sets, rho fixed, by squared error or by bumpiness, default or user supplied models',
     'the tests compare a few predictions to stored numbers', [SK],
     [('sum of the parts', SK + ':predict, _getDisc'), ('scale factor', SK + ':_rho_optimize, _eval_error, _eval_bumpiness')],
     ['predict', 'predict_lf'])
prop('C10', 'Co-kriging prediction equals the auto-regressive co-kriging equations',
     'Mean and variance of a high-fidelity prediction are those of the joint Gaussian process z_h = rho z_l + z_d over both data '
     'sets, for the fitted rho, kernels, process variances and noise levels, in the units of the high-fidelity responses; the low-'
     'fidelity prediction is the kriging prediction from the low-fidelity data. rho lies within its bounds, a given noise level is '
     'used as given (relative to the high-fidelity response spread) and a learned one lies within its bounds.',
     'inputs configurations', 'every pair of data sets with non-constant responses, noise zero / given / learned, any rho bounds, any '
     'optimizer', 'the tests compare a few predictions to stored numbers', [CK],
     [('joint covariance', CK + ':_train_hf'), ('posterior', CK + ':predict'), ('low-fidelity process', CK + ':_GP')],
     ['predict', 'predict_lf'])
prop('C11', 'Noise-free surrogates reproduce their training responses',
     'With zero noise the predicted mean of each of the four surrogates at every high-fidelity training point is the response given '
     'there, and the low-fidelity prediction at every low-fidelity point is the low-fidelity response, up to rounding and the fixed '
     'numerical jitter; the predicted standard deviation of the kriging models vanishes there.',
     'inputs configurations', 'every data set of distinct points whose covariance matrix is well conditioned, every kernel parameter '
     'found or set, points asked in any order and batch', 'the tests look at one data set', [GP, HK, SK, CK],
     [('mean', GP + ':predict'), ('mean', HK + ':predict'), ('mean', SK + ':predict'), ('mean', CK + ':predict')], ['predict'])
prop('C12', 'Prediction is a pure function of each point; deviations are not negative',
     'A prediction returns one mean and one non-negative standard deviation per asked point, each depending on that point alone '
     '(not on the rest of the batch, its order or its size, up to the fixed numerical jitter), a single point may be given as a '
     'vector, and asking for the deviation does not change the mean. Predicting never changes what the model predicts later.',
     'inputs histories', 'every trained model of each kind, every batch, every sequence of predictions', 'the tests predict once per '
     'trained model', [GP, HK, SK, CK, MFG], [('prediction', GP + ':predict'), ('prediction', HK + ':predict'),
                                              ('prediction', SK + ':predict'), ('prediction', CK + ':predict, _GP.predict')],
     ['predict', 'predict_lf'])
prop('C13', 'Training again is the same as training a new model',
     'A surrogate that was trained before, on any other data and whatever it predicted since, gives after training on a data set '
     'the same predictions and noise level as a new model of the same configuration trained on that data set with the same random '
     'state.', 'histories inputs', 'every sequence of trainings and predictions, every pair of data sets (sizes, scales), noise zero / '
     'given / learned', 'the tests train each model once', [GP, HK, SK, CK, MFG],
     [('training', GP + ':train'), ('training', HK + ':_train_hf'), ('training', SK + ':_train_hf'), ('training', CK + ':_train_hf')],
     ['predict after train'], [('noise', 'noise level, learned anew when it is not given', GP)])
prop('C14', 'Hyper-parameters stay in their bounds and keep the best restart',
     'Training leaves the kernel exponents (and a learned noise level or rho) within their search bounds, at the parameters with '
     'the lowest negative log-likelihood among all the restarts that were run; the negative log-likelihood that is minimised is '
     'the kriging likelihood of the normalised data, concentrated over the trend and, for noise-free data, over the variance. The fitted model uses exactly those parameters.',
     'inputs configurations', 'every data set, number of restarts, optimizer result and noise setting',
     'the tests only look at the default search on one data set', [GP, HK, CK],
     [('restart loop', GP + ':_optHyp'), ('restart loop', HK + ':_optHyp'), ('restart loop', CK + ':_optHyp'),
      ('likelihood', GP + ':_logLikelihood')], ['kernel parameters after train', 'likelihood values'])
prop('C15', 'LCB, EI and PI values and the point they propose',
     'For every point LCB is k0 times the predicted mean minus k1 times the deviation, EI is minus the expected improvement and PI '
     'minus the probability of improvement over the lowest training response, as functions of the model prediction at that point. '
     'The proposed point is the minimiser that the optimizer finds for that function over the design space of the model, and PI '
     'lies in [-1, 0].',
     'inputs configurations', 'every surrogate prediction, training set, batch of points, kappa, and default or user optimizer',
     'the tests run a few iterations of one optimization', [SA], [('values', SA + ':LCB.eval, EI.eval, PI.eval'), ('proposal', SA + ':query')],
     ['eval', 'query'])
prop('C16', 'Constrained EI is EI times the product of feasibility probabilities',
     'For every point constrained EI is minus the expected improvement of the objective model times the product over all '
     'constraint models of the probability that the constraint is at most 0, each taken from the prediction at that point. The '
     'proposed point is the minimiser that the optimizer finds for that function over the design space.',
     'inputs configurations', 'every number of constraints, every surrogate prediction, batch of points, default or user optimizer',
     'the tests run one constrained optimization', [CA], [('values', CA + ':CEI.eval, ei, pof'), ('proposal', CA + ':query')],
     ['eval', 'query'])
prop('C17', 'Multi-fidelity acquisitions: values per fidelity and the chosen fidelity',
     'At every point augmented EI, variable-fidelity EI, variable-fidelity LCB and extended PI have the value their definition gives '
     'for the asked fidelity from the predictions of the multi-fidelity model (deviation of that fidelity, correlation and cost '
     'ratio where defined), and any other fidelity is refused. The proposal is the minimiser over the design space for the fidelity '
     'with the lower minimum, the high fidelity on ties, returned as one row.',
     'inputs configurations', 'every prediction of the two fidelities, best value, cost ratio, batch of points',
     'the tests run a few iterations on one problem', [MA, MFG],
     [('values', MA + ':AugmentedEI.eval, VFEI.eval, VFLCB.eval, ExtendedPI.eval'), ('choice', MA + ':query')], ['eval', 'query'])
prop('C18', 'Single-fidelity Bayesian optimization reports the best evaluated point',
     'At all times the data set is the initial Latin-hypercube plan followed by every proposed point with the problem value at that '
     'point; the reported best is the minimum of all responses, the best point is a point with that value, and the histories hold '
     'one entry per evaluation step with a never increasing best. The surrogate is always trained on the complete data set.',
     'inputs histories configurations', 'every problem, acquisition function (whatever it proposes), iteration count and number of '
     'runs in sequence', 'the tests run one optimization of a few steps and compare the final number', [SB],
     [('loop', SB + ':run_optimizer'), ('start', SB + ':_initialization'), ('best', SB + ':_update_para')],
     ['best, best_x, histories, data set, training sets of the surrogate'])
prop('C19', 'Constrained Bayesian optimization reports the best feasible point',
     'The reported best is the lowest objective among the evaluated points whose constraint values are all at most 0 and the best '
     'point has that objective and is feasible; while there is no such point the best is infinite and there is no best point. The '
     'data set is the initial plan plus every proposed point with objective and constraint values, and each surrogate is trained '
     'on its own complete column of it.',
     'inputs histories configurations', 'every objective, number of constraints, proposal sequence, order of feasible and infeasible '
     'points', 'the tests run one optimization whose start is feasible', [CB],
     [('loop', CB + ':run_optimizer'), ('best feasible', CB + ':_update_para, _initialization')],
     ['best, best_x, histories, data set, training sets of the surrogates'])
prop('C20', 'Multi-fidelity optimization evaluates the chosen fidelity and keeps the best',
     'Every proposed point is evaluated with the function of the proposed fidelity and appended to the data of that fidelity only; '
     'the surrogate is trained on the complete data. The reported best is the minimum of the high-fidelity responses with a point '
     'that has it, the histories and the fidelity order have one entry per step, and the best never increases.',
     'inputs histories configurations', 'every problem pair, proposal and fidelity sequence, surrogate type, iteration count',
     'the tests run one short optimization', [MB], [('loop', MB + ':run_optimizer'), ('best', MB + ':_update_para')],
     ['best, best_x, histories, data sets, fidelity order'])
prop('C21', 'Bayesian optimization respects its budget and stopping error',
     'A run makes at most the given number of iterations, exactly one new evaluation each, and continues exactly as long as '
     'iterations remain and the error to the known optimum (relative, or absolute when the optimum is 0) has not fallen below the '
     'given stopping error; with an unknown optimum it uses the whole budget. This holds for the single-fidelity, constrained and '
     'multi-fidelity optimizers.',
     'inputs histories configurations', 'every budget, stopping error, optimum (positive, negative, zero, unknown) and sequence of '
     'responses', 'the tests run to a small fixed budget', [SB, CB, MB],
     [('loops', SB + ':run_optimizer'), ('loops', CB + ':run_optimizer'), ('loops', MB + ':run_optimizer')], ['number of evaluations'])
prop('C22', 'PSO and DE evaluate only points inside the bounds',
     'Particle swarm optimization and differential evolution call the objective only with whole populations of the asked size whose '
     'every coordinate lies within the bounds of its dimension, and the reported best point lies within the bounds. Extra arguments '
     'are handed to the objective unchanged.',
     'inputs configurations histories', 'every objective, bounds, population, generation count, rate parameters, strategy and random '
     'stream', 'the tests look at the final optimum of one run', [EA],
     [('repair', EA + ':_loc_cons'), ('moves', EA + ':PSO.__update_pop, DE.__update_pop')], ['points passed to the objective'])
prop('C23', 'PSO and DE return the best evaluated point and a never increasing history',
     'The returned best value is the lowest objective value evaluated during the run and the returned best point has that value; '
     'the history of best values never increases, has one entry for the initial population and one per generation, and each entry of a generation that ran is the lowest value up to then and belongs to the listed best '
     'point. A run stops after the given number of generations or after the first generation whose best is below the stopping '
     'value.',
     'inputs configurations histories', 'every objective, generation count, stopping value and random stream', 'the tests look at the '
     'final optimum of one run without early stop', [EA],
     [('best', EA + ':PSO.__update_gen_optimum, DE.__update_gen_optimum'), ('early stop', EA + ':run_optimizer')],
     ['results returned by run_optimizer'])
prop('C24', 'Single-fidelity and constrained test functions are their published formulas',
     'Each single-fidelity test function (and its constraint function where it has one) returns one value per row of its '
     'input, a column of values of the published formula for that row.',
     'inputs', 'every batch of points (any number of rows) and every coordinate in the declared domain, every dimension the '
     'function takes', 'the tests evaluate a handful of points', [PS, PC], [('formulas', PS), ('constraints', PC)], ['f, f_cons'])
prop('C25', 'Multi-fidelity test problems: formulas, finiteness and call order',
     'Each fidelity of every multi-fidelity test problem returns one finite value per row, the value of the published formula for '
     'that row, everywhere in the declared domain. Calling a problem with a list of sample sets returns the list of responses in '
     'the same order, each by the function of its fidelity.',
     'inputs configurations', 'every batch of points in the declared domain, every number and order of '
     'sample sets (one or two)', 'the tests evaluate a handful of points', [PM], [('formulas', PM), ('call', PM + ':__call__')], ['hf, lf, call'])
prop('C26', 'Declared optima are attained and never beaten',
     'For every test problem that declares an optimum value and location, the location lies in the declared domain, the function '
     'takes the declared value there (up to the printed digits), and no point of the domain has a smaller value (for constrained '
     'problems: no feasible point).',
     'inputs configurations', 'every point of every declared domain, every dimension', 'the tests compare a few declared optima',
     [PS, PC, PM], [('declared optima', PS), ('declared optima', PC), ('declared optima', PM)], ['optimum, optimum_scheme, f, hf'],
     )
prop('C27', 'Problem instances are independent and check their dimension',
     'Instances of the same test-problem class with different settings (dimension, domain) never influence each other: the declared '
     'domain, dimension and optimum of an instance are those of its own arguments whatever other instances are created before or '
     'after. Domains have one (low, high) row per dimension and fixed-dimension or scalable problems refuse dimensions they do not '
     'have.',
     'histories configurations', 'every sequence of constructions and every dimension argument', 'the tests build each problem once',
     [PS, PC, PM, PF], [('constructors', PS), ('constructors', PM)], ['instance attributes after other constructions'])

NOTES = {}
try:
    NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
except OSError:
    pass
TECH = ('contract-based deductive verification of the real code: pre/postconditions and loop invariants over the mechanically '
        'extracted source, obligations discharged by engine/ (normalisation + z3), the same contracts evaluated at run time on the '
        'real code to find a failing input')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, level, note in P:
        i = p['id']
        n = NOTES.get(i, {})
        level = n.get('level', level)
        if not os.path.exists(os.path.join(ROOT, 'checks', i + '.py')):
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        checks.append({'property': i, 'quick_cmd': 'python3-vt run_check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % i,
                       'technique': n.get('technique', TECH), 'level': level,
                       'level_note': n.get('note') or 'obligations and assumptions: evidence/%s.json; see DESIGN.md' % i})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy, scipy" && (python3-vt selftest/run.py; python3-vt selftest/conform.py; true)', 'checks': checks,
         'not_applicable': na, 'notes': 'no hooks in /repo; known-findings.txt lists the repaired defects and the recorded finding'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
