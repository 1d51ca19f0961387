'''What each check is made of (budgets, environments, and what the evidence says about them)'''

SE = {'__INCLUDE_SE_KERNEL': True}
SEARCH_REAL = ['GPy_ABCD search loop (explore_model_space, model_search_rounds)', 'GPy_ABCD grammar and kernel expressions', 'GPModel scoring']

META = {
    'C01': {'quick_s': 30, 'rule': 'seeded searches: start kernels, rules, beams, continuations, likelihood landscapes (ties, infinities), utilities and fitters drawn per run; non-trivial if a round added models; distinct by event log',
            'states': 'hash of list sizes and best kernels after each segment', 'real': SEARCH_REAL + ['both exported fitters (in part of the runs)', 'process pool protocol over forked workers'],
            'stub': ['GP fits (scripted likelihoods; in part of the runs real GPs with scripted optimiser outcomes)', 'process scheduling and clock']},
    'C02': {'quick_s': 30, 'rule': 'as C01 with a custom recording fitter; non-trivial if at least one model was expanded', 'states': 'hash of (beam, models left, models expanded) per round', 'real': SEARCH_REAL, 'stub': ['GP fits (scripted likelihoods)']},
    'C03': {'quick_s': 30, 'rule': 'as C01 with all production rules, with and without SE; every fitted kernel compared with a reference grammar; non-trivial if a round added kernels',
            'states': 'distinct kernel expressions (canonical) reached by the searches', 'real': SEARCH_REAL, 'stub': ['GP fits (scripted likelihoods)'], 'configs': [{}, {}, {}, SE]},
    'C04': {'quick_s': 35, 'helpers': 2, 'rule': 'a search in one go against the same search in random steps, with the state pickled, moved to interpreters with other hash seeds and back, or reloaded after a crash inside a round; non-trivial if there was at least one interruption',
            'states': 'hash of the steps and kinds of interruption', 'real': SEARCH_REAL + ['pickling of states, models and GPs', 'sequential fitter over real GPs (part of the runs)'], 'stub': ['GP fits (scripted likelihoods or scripted optimiser outcomes)']},
    'C05': {'quick_s': 35, 'rule': 'a continuation is made to fail one to three times (user interrupt or memory error at a random executed line; fitter, utility or fit errors; dead worker) and is then resumed; non-trivial if a fault fired',
            'states': 'hash of fault kind, error, function interrupted and relative position', 'real': SEARCH_REAL + ['both exported fitters (in part of the runs)'], 'stub': ['GP fits (scripted)', 'process scheduling and clock']},
    'C11': {'quick_s': 35, 'rule': 'searches and fits which finish, fail or are interrupted at a random executed line, one after another or interleaved line by line in 2-3 threads (sharing start kernels and data in part of the runs); everything given, exported or returned earlier is compared before and after; non-trivial if something failed, was interleaved or preceded',
            'states': 'hash of interrupted function and position', 'real': SEARCH_REAL + ['GPModel fits over real GPs (part of the runs)', 'Python threads (one runs at a time, switched by the simulator)'], 'stub': ['GP fits (scripted)', 'thread scheduling']},
    'C12': {'quick_s': 40, 'helpers': 2, 'rule': 'the same seeded search repeated in the process after other activity and in two interpreters with other hash seeds; digests of models, parameters, scores, orders and random state; non-trivial if models were added',
            'states': 'hash of fitter, number of kernels and last kernel', 'real': SEARCH_REAL + ['sequential fitter over real GPs with real optimisers and random restarts (part of the runs)'], 'stub': ['GP fits (scripted likelihoods, in the other runs)']},
    'C13': {'quick_s': 30, 'rule': 'each search and continuation silent and logged; results compared and every logged statement checked against the recorded history; every run counts, distinct by event log', 'states': 'hash of model count, rounds and beams',
            'real': SEARCH_REAL + ['logging'], 'stub': ['GP fits (scripted likelihoods)']},
    'C06': {'quick_s': 30, 'rule': 'lists of kernels (by both exported fitters) and searches in which fits are made to fail at construction or at a random restart, with every kind of error, up to and beyond the retry limit; the recorded attempts, warnings and outcomes are compared with a reference; non-trivial if a fit failed',
            'states': 'hash of entry point, retry limit and attempts per kernel', 'real': ['both exported list fitters and the retry loop', 'GPModel.fit', 'process pool protocol over forked workers', 'GPRegression construction and restarts (part of the runs)'],
            'stub': ['optimiser outcomes (scripted)', 'GP fits (in the other runs)', 'process scheduling and clock']},
    'C07': {'quick_s': 30, 'rule': 'lists of 0 to 17 kernels on 1 to 8 simulated processors under random schedules and speeds, with fits failing for good, workers killed at any point of a task, unloadable errors and user interrupts, each followed by a run without faults; and whole searches; non-trivial if more than one kernel or a fault',
            'states': 'hash of worker, task size and time of completions, and of processors, kernels and faults', 'real': ['fit_mods_parallel_processes', 'retry loop and GPModel.fit', 'pickling between processes', 'forked worker processes', 'GPRegression construction and restarts (part of the runs)'],
            'stub': ['ProcessPoolExecutor and Pool (lockstep reimplementation over forked workers)', 'process scheduling and clock', 'optimiser outcomes (scripted) or GP fits (scripted)']},
    'C09': {'quick_s': 35, 'jit': 2, 'rule': 'histories of up to 25 operations (single, vector, by-name and random parameter changes, optimiser runs and restarts, failing inferences, interrupted evaluations, impossible values, copies, pickling) on kernels and models of random expressions and their copies; covariances, diagonals, cross-covariances, likelihoods and predictions compared with reference formulas at the displayed values; non-trivial if there was an operation',
            'states': 'hash of consecutive operations and top-level kernel type', 'configs': [{}, {}, {'__FIX_SIGMOIDAL_KERNELS_SLOPE': False}, {}, {'__USE_LIN_KERNEL_HORIZONTAL_OFFSET': False, '__USE_NON_PURELY_PERIODIC_PER_KERNEL': True}, {}, {}, {}],
            'real': ['GPy_ABCD kernels and change operators', 'GPy kernels, inference and GPRegression', 'paramz caching, linking and optimisers'], 'stub': ['optimiser outcomes (scripted, in part of the operations)']},
    'C10': {'quick_s': 40, 'jit': 1, 'rule': 'kernels picked from simulated searches (walks towards large kernels, from simple and from complex start kernels) or all models of a search over real GPs, fitted with scripted optimiser outcomes (moderate, coinciding, wide, extreme), untouched defaults or real optimisers; covariance of the canonical form compared with that of the fit, and the text parsed and compared with the canonical form; non-trivial if a model was described',
            'states': 'distinct descriptions up to numbers', 'configs': [{}, {}, SE, {'__FIX_SIGMOIDAL_KERNELS_SLOPE': False}, {}, SE, {'__USE_LIN_KERNEL_HORIZONTAL_OFFSET': False, '__USE_NON_PURELY_PERIODIC_PER_KERNEL': True}, {}],
            'real': SEARCH_REAL + ['GPModel fits over real GPs', 'matching of parameters, canonical form and interpretation'], 'stub': ['GP fits of the walking searches (scripted likelihoods)', 'optimiser outcomes (scripted, in most of the runs)']},
    'C08': {'quick_s': 35, 'jit': 1, 'rule': 'histories of up to 14 operations on a model, its copies and other models of the same kernel: fits and refits, fits failing at construction or any restart, fits and views interrupted at any executed line, changes of data, copies, pickling; after each, random views compared with independent evaluations of the last successful fit; non-trivial if there was a successful fit',
            'states': 'hash of consecutive operations, whether fitted, and error', 'configs': [{}, {}, {}, {'__FIX_SIGMOIDAL_KERNELS_SLOPE': False}, {}, {'__USE_LIN_KERNEL_HORIZONTAL_OFFSET': False, '__USE_NON_PURELY_PERIODIC_PER_KERNEL': True}, {}, {}],
            'real': ['GPModel', 'GPRegression, inference and prediction', 'canonical form and interpretation', 'pickling and copying'], 'stub': ['optimiser outcomes (scripted, in most of the runs)']},
    'C14': {'quick_s': 35, 'rule': 'searches and continuations (data given as columns, one-dimensional arrays, lists or integers; settings changed between segments; failing attempts; both exported fitters) with every construction, restart and optimiser run recorded; and single fits, refits and retried fits whose restarts end or fail as scripted, or run real optimisers; non-trivial if something was fitted',
            'states': 'hash of fitter, data shapes and settings, or of entry point, restarts and failures', 'real': SEARCH_REAL + ['both exported list fitters', 'GPModel.fit', 'GPRegression and its restarts (part of the runs)', 'process pool protocol over forked workers'],
            'stub': ['optimiser outcomes (scripted) or GP fits (scripted)', 'process scheduling and clock']},
}
