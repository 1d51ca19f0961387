# Regenerates /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
MS='GPy_ABCD/Models/modelSearch.py'; MO='GPy_ABCD/Models/model.py'; GR='GPy_ABCD/KernelExpansion/grammar.py'; OPS='GPy_ABCD/KernelExpansion/kernelExpressionOperations.py'
KB='GPy_ABCD/KernelExpressions/base.py'; KCB='GPy_ABCD/KernelExpressions/commutative_base.py'; KC='GPy_ABCD/KernelExpressions/commutatives.py'; KCH='GPy_ABCD/KernelExpressions/change.py'
INT='GPy_ABCD/KernelExpansion/kernelInterpretation.py'; KO='GPy_ABCD/KernelExpansion/kernelOperations.py'; GU='GPy_ABCD/Util/genericUtil.py'; MU='GPy_ABCD/Util/modelUtil.py'
CO='GPy_ABCD/Kernels/changeOperators.py'; SK='GPy_ABCD/Kernels/sigmoidalKernels.py'; LO='GPy_ABCD/Kernels/linearOffsetKernel.py'; PE='GPy_ABCD/Kernels/periodicKernel.py'
EXP='the five values returned by explore_model_space and model_search_rounds'
p('C01','A search accounts for every fitted model exactly once, best first',
  'After any search or continuation (by the same utility throughout) the per-round lists contain every model the fitter delivered in that round exactly once, each sorted from best to worst by the requested utility, and the overall list is all of those same models sorted from best to worst. The tested expressions are exactly those of the fitted models, and the expanded and not-yet-expanded models are two disjoint lists which together are all of the models, the latter also sorted from best to worst. Every model carries the value of the requested utility computed from its own fit and its own number of data points and parameters.',
  ['histories','schedules','fault_sequences'],'every start list, rule set, beam, number of rounds and continuation, every (non-NaN) assignment of scores to models including ties and infinities, every fitter, and every order in which fits complete or are retried',
  'No collected test runs a search: the existing ones only check expression algebra, so the bookkeeping is never exercised on any history of scores.',
  [MS,GU,MO],[('sorting and list bookkeeping of the round loop','%s:model_search_rounds'%MS),('unique/diff/flatten','%s'%GU),('compute_utility caching','%s:GPModel.compute_utility'%MO)],
  [('sorted_models, tested_models, tested_k_exprs, expanded, not_expanded','the search state','%s:model_search_rounds'%MS)],[EXP])
p('C02','Each round expands exactly the best not-yet-expanded models its beam allows',
  'In every round, of a search or of a continuation, the models whose kernels are expanded are the best-scoring ones not expanded in any earlier round, as many as that round\'s beam asks for (or all that are left), and no model is ever expanded twice. Exactly the requested number of rounds is run, each with its own beam value; a single integer beam applies to every round, a list shorter than the number of rounds is extended with its last value and a longer one is cut.',
  ['histories','schedules'],'every sequence of round scores (ties broken either way), every beam given as integer or list of any length, any number of rounds, also when continuing, and when fewer models than the beam are left',
  'No collected test runs a search; which models are expanded depends on the whole history of scores over several rounds, which only a run of the search can produce.',
  [MS,GU],[('beam normalisation','%s:beam_list'%MS),('selection of the front of not_expanded','%s:model_search_rounds'%MS)],
  [('expanded / not_expanded','which models have been used as seeds','%s:model_search_rounds'%MS)],[EXP,'the lists of kernels handed to the model list fitter'])
p('C03','Each round fits exactly the new one-step rewrites of the expanded kernels',
  'The kernels fitted in a round are exactly the distinct kernels obtained by applying each chosen production rule once at one place of one expanded kernel, rewriting that place only (either branch of a change operator included) and leaving the rest of the kernel as it was, minus those already tested. Every one of them is a complete, fully simplified expression, so that no kernel is fitted twice under the same or another arrangement of its terms in a whole search. Expanding never alters the kernels being expanded.',
  ['histories','configurations','inputs'],'every kernel reachable by any history of expansions from any start kernels, with every subset of the production rules',
  'The existing tests check single operators on a handful of expressions; whether a rewrite deep in a tree produced by several earlier expansions lands in the right place, is simplified and is recognised as already tested depends on the history.',
  [GR,OPS,KB,KCB,KC,KCH,MS],[('production rules and expand','%s'%GR),('tree copying and child reassignment','%s:new_tree_with_self_replaced'%KB),('simplify and __eq__','%s'%KCB),('exclusion of tested kernels','%s:model_search_rounds'%MS)],
  None,['the lists of kernels handed to the model list fitter'])
p('C04','A continued or restarted search equals an uninterrupted one',
  'Running a search for some rounds and then continuing it with the returned state, in any number of steps and with the same settings, gives the same models in the same lists and order as one uninterrupted search. The same is true when the state is saved between steps and loaded in a new process, whatever its string hash seed, and when a round that was cut short by a crash is run again from the last saved state.',
  ['crash_points','histories','configurations'],'every way of splitting the rounds of every search, every crash point during a round followed by a restart from the last saved state in a fresh interpreter with another hash seed',
  'No test continues, saves or restores a search; the defects it would have to catch need a split point, a crash point and a different process.',
  [MS,GR,MO,GU,KB],[('state passed in and out','%s:model_search_rounds'%MS),('deterministic candidate order','%s'%GR),('identity-based list difference','%s:diff'%GU)],
  [('the five-value search state','everything a continuation depends on','%s:model_search_rounds'%MS)],[EXP])
p('C05','A failed or interrupted continuation leaves the search state resumable',
  'If continuing a search fails or is interrupted at any moment (by a fit error which exhausts its retries, a failing fitter or utility function, a user interrupt or lack of memory), the error reaches the caller and the state which was passed in still holds exactly the same models and kernels in the same order. Trying again from that state once the cause is gone gives the same result as if the failure had never happened.',
  ['fault_sequences','crash_points'],'every point of execution of a continuation at which an exception or interrupt can arise, in every round, repeatedly',
  'It quantifies over every instruction at which an interrupt can arrive and every fit which can fail in a multi-round continuation; no test makes a search fail.',
  [MS,MO],[('working on copies of the state','%s:model_search_rounds'%MS),('no swallowing of errors','%s:fit_one_model'%MS)],
  [('the lists passed in by the caller','must survive','%s:model_search_rounds'%MS)],['the arguments of model_search_rounds after it raised','the result of calling it again'])
p('C06','Failing fits are retried up to the limit, from scratch, and then reported',
  'When fitting a kernel raises an error it is tried again from scratch (a new model with default starting parameters, for the same kernel, data and settings) until an attempt succeeds or the given maximum number of retries is used up, in which case the last error is raised; a warning naming the kernel and the error is issued for each retry and none otherwise. Interrupts and exits are never retried. Retries are counted per kernel, are independent of restarts, and do not affect the other models or their order.',
  ['fault_sequences'],'every assignment of failing attempts (of any error type, during construction or at any restart of optimisation) to the kernels of a list or search, every maximum number of retries',
  'Numerical failures do not happen in the small examples of the tests, and none injects one.',
  [MS],[('retry loop','%s:fit_one_model'%MS),('list fitters','%s:fit_mods_not_parallel'%MS)],None,['calls into the regression model and its optimiser','issued warnings','return value or raised error'])
p('C07','Parallel fitting returns one model per kernel in order, or raises; no hangs',
  'Fitting a list of kernels in parallel processes returns exactly one fitted model for each kernel, in the order of the list, each the same as fitting that kernel on its own gives (random restarts aside), whatever the number of workers, the grouping of kernels, and the order and speed at which workers finish. If a fit fails for good its error is raised, and if a worker process dies an error is raised in bounded time instead of waiting forever. In every case no worker process is left running afterwards.',
  ['schedules','fault_sequences','configurations'],'every number of processors and of kernels (also zero, one, and fewer than processors), every schedule and relative speed of the workers, every fit failing and every worker dying at any point',
  'The tests never start the worker pool, and a real run shows one schedule of the operating system and no dying worker.',
  [MS],[('process pool map with chunking','%s:fit_mods_parallel_processes'%MS)],None,['return value or raised error of the parallel list fitter','live worker processes'])
p('C08','A model\'s views always describe its last successful fit, and refuse before one',
  'At any time a model\'s predictions and quantiles, its score, its canonical form and its text description all come from its most recent successful fit, with the parameters and data of that fit, whatever sequence of refits, failed or interrupted refits, predictions, descriptions, copies and saved-and-loaded copies came before. Looking at a model changes nothing: each view gives the same answer whenever it is asked for again, in any order, and never alters the model, its kernel expression or its data. Before a first successful fit the canonical form and the description refuse with an error, and refitting without a number of restarts uses the last one given or refuses if there is none.',
  ['histories','fault_sequences','crash_points'],'every sequence of fits, failing and interrupted fits, views, copies and pickling, for every kernel and every data set',
  'No collected test fits a model, so no sequence of operations on one is exercised at all.',
  [MO,KO,KB,KC,KCH],[('fit replacing the model only on success','%s:GPModel.fit'%MO),('cached canonical form','%s:GPModel.sum_of_prods_kex'%MO),('deep copy before inserting parameters','%s:GPModel.sum_of_prods_kex'%MO)],
  [('model, _sum_of_prods_kex, restarts','fitted state and derived cache','%s:GPModel'%MO)],['predict, interpret, sum_of_prods_kex, compute_utility'])
p('C09','A kernel\'s covariance always reflects its current displayed parameters',
  'At any moment the covariance matrix, its diagonal and the likelihood of a kernel built from an expression are those given by the formulas of its base kernels and change operators at the parameter values the kernel currently displays, whatever sequence of parameter changes, optimiser steps, restarts, failed evaluations, evaluations at other inputs, copies and saved-and-loaded copies led there. Every displayed parameter takes part in those formulas, and changing a copy never changes the original.',
  ['histories','fault_sequences','inputs'],'every sequence of parameter updates (single, whole-vector, random), evaluations at same and other inputs, failing evaluations, copies and pickling, over kernels of any composition',
  'Evaluations are cached and change operators copy and mirror parameters, so staleness depends on the order of updates and evaluations; no test evaluates a covariance after any update.',
  [CO,SK,LO,PE,'GPy_ABCD/Kernels/baseKernels.py',KC,KCH],[('linked sub-kernels','%s:ChangeKernelBase.__init__'%CO),('mirroring of location/slope/width','%s:parameters_changed'%CO),('cached K','%s:K'%CO)],
  [('first, second, sigmoidal, sigmoidal_reverse','sub-kernels of a change operator','%s'%CO)],['K, Kdiag and log_likelihood versus the parameter array'])
p('C10','Every fitted model is describable, and the description matches the fit',
  'Whatever kernel a search reaches and wherever the optimiser ends up, the canonical form of the fitted model is a sum of products which has the same covariance as the fitted kernel. Its text description can always be produced and has one line per product, stating that product\'s variance, the period, lengthscale and offset parameters of its factors, and the intervals on which its change operators switch it on.',
  ['inputs','histories'],'every kernel reachable by expansion from any start kernels, every parameter vector an optimiser can return, including degenerate ones and windows which do not overlap',
  'The tests of the description run on a few fixed expressions (marked for inspection) and never compare it with the covariance.',
  [INT,KC,KCH,KCB,KO,KB],[('sum_of_prods_form','%s, %s'%(KC,KCH)),('matching parameters to terms','%s:match_up_fit_parameters'%KCB),('interval simplification','%s:sigmoids_to_intervals'%INT)],None,['sum_of_prods_kex and interpret()'])
p('C11','Searches and fits leave inputs, defaults and each other alone',
  'A search or fit never modifies the data, kernel expressions, rule lists or beam it is given, the exported default start kernels and rules, or any model and state returned earlier, whether it succeeds, fails or is interrupted, and leaves warning settings as they were. Searches run one after another, or interleaved in any way in several threads with a fitter which is itself independent of the interleaving, each give the results they give alone.',
  ['schedules','histories','fault_sequences'],'every sequence and every thread interleaving of searches and fits in one process, with faults',
  'Needs several searches in one process, interleaved or failing; the tests run none.',
  [MS,MO,GR,KB],[('deep copies in expansion','%s:new_tree_with_self_replaced'%KB),('copying of start kernels','%s:make_simple_kexs'%GR),('scoped warning filters','%s:GPModel.fit'%MO)],
  [('start_kernels, production_rules','exported mutable defaults','%s'%GR)],['arguments and exported defaults before and after','results of interleaved versus solo searches'])
p('C12','A seeded search is reproducible across processes and hash seeds',
  'A search with the sequential fitter, or with any fitter whose fits depend only on the kernel and on the random number generator, gives identical models, parameters, scores and orders whenever it is repeated with the same inputs and the same random seed. This holds in the same process after any other activity, and in other processes with any string hash seed.',
  ['configurations','histories'],'every hash seed, every earlier activity in the process, every search setting and random seed',
  'A test suite runs under one hash seed and compares nothing across processes.',
  [GR,MS,GU,KC],[('deterministic order of rule application and start kernels','%s'%GR),('stable sorting','%s:model_search_rounds'%MS)],None,['the sequence of kernels fitted and '+EXP])
p('C13','Logging is truthful and changes nothing',
  'Turning logging on never makes a search fail or changes its results. Each logged round states the number of new models, the beam and the best new, best overall and best not-yet-expanded kernels of that very round, also when a search is continued, when a round has nothing new or nothing is left to expand, and when no rounds are requested.',
  ['histories','configurations'],'every search and continuation, including empty rounds, exhausted frontiers and zero rounds',
  'No test runs a search with logging, let alone one with empty rounds or continued from an earlier state.',
  [MS],[('log lines','%s:model_search_rounds'%MS),('kernel list formatting','%s:print_k_list'%MS)],None,['standard output of a verbose search versus its returned state'])
p('C14','Every fit uses the requested data, restarts and optimiser, and keeps the best',
  'In every round of a search and of a continuation, with either exported fitter and on every retry, each kernel is fitted to the given data (one-dimensional data as a column) with the requested number of restarts and optimiser. A fit keeps the best of all its restarts, and with the robust option also when some of them fail.',
  ['fault_sequences','schedules','configurations'],'every data shape, number of restarts, optimiser and retry limit, every outcome and failure of each single restart',
  'No test runs a search or a fit; the settings pass through several positional argument lists and a process boundary.',
  [MS,MO,MU],[('argument passing to fitters','%s:model_search_rounds'%MS),('optimize_restarts call','%s:GPModel.fit'%MO)],None,['calls into the regression model and its optimiser'])
# not claimed: pure functions
p('C20','Simplification preserves the covariance a kernel expression stands for',
  'Simplifying an expression never changes the family of covariances it stands for, and simplifying twice changes nothing more.',['inputs'],'every expression','Tests sample a few dozen expressions.',[KCB,KC,KCH],[('simplify','%s'%KCB)])
p('C21','Expression equality, text and constructor forms agree',
  'Two expressions are equal exactly when they have the same terms up to order, and evaluating an expression\'s constructor form gives an equal expression.',['inputs'],'every pair of expressions','Tests sample a few pairs.',[KCB,KCH],[('__eq__, __repr__','%s'%KCB)])
p('C22','Covariances are positive semi-definite and gradients match them',
  'Every base and change kernel gives a positive semi-definite covariance, and its gradients are the derivatives of the likelihood with respect to its parameters.',['inputs'],'every input set and parameter vector','Tests never evaluate a gradient.',[CO,SK,LO,PE],[('update_gradients_full','%s'%CO)])
p('C23','The exported utilities follow their published formulas',
  'BIC, AIC and AICc equal their published formulas in log-likelihood, data count and parameter count.',['inputs'],'every triple of values','Tests never compute them.',[MU],[('BIC, AIC, AICc',MU)])
p('C24','Predicted quantiles are ordered and consistent with mean and variance',
  'For every input the predicted lower quantile is below the mean and the upper above it, and both are those of a normal distribution with the predicted mean and variance.',['inputs'],'every fitted model and prediction input','Tests never predict.',[MO],[('predict','%s:GPModel.predict'%MO)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1; assert n<=3,(x['id'],n)
