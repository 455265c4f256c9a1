import json
S='src/bayesbay/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

HIST="The existing tests run a few long random chains and look at (or only plot) histograms of the prior; a bias in a corner of the state space, in one branch of a move or near a bound is far below the Monte-Carlo noise, and no test checks the ratio of any single transition."

p("C01","Parameter-value moves are reversible with respect to the prior",
 "For every built-in prior (uniform, Gaussian, Laplace, user-defined), with constant or position-dependent hyperparameters, in parameter spaces and 1D/2D Voronoi discretizations, the move that perturbs parameter values picks one dimension uniformly, adds to each of its parameters a zero-mean Gaussian deviate with the configured perturbation standard deviation at that dimension's position, and changes nothing else. "
 "The log ratio it reports equals log(prior ratio x proposal ratio), minus infinity when the new value leaves a prior's support, so that prior(m) q(m->m') min(1, ratio) is the same in both directions for every pair of models the move connects.",
 ["inputs","configurations"],"all configurations in the alphabet of priors x hyperparameter dependence x spaces, all lattice models, all random draws of the move",HIST,
 ["prior/_prior.py","perturbations/_param_values.py","perturbations/_param_space.py"],
 [("value perturbation of each prior","prior/_prior.py"),("dimension choice and state rebuild","perturbations/_param_values.py")],
 ["new model and log ratio returned by the parameterization's perturbation functions"])
p("C02","Birth and death drawn from the prior are exact inverses",
 "In a trans-dimensional parameter space, and in a 1D/2D Voronoi discretization (bounding box or polygon) whose births draw from the prior, a birth adds exactly one dimension whose position is uniform over the domain and whose values are drawn from the prior at that position, a death removes one uniformly chosen dimension, and all other dimensions keep their position and values. "
 "Births and deaths are attempted equally often, are refused (log ratio minus infinity) exactly at the maximum/minimum number of dimensions, and otherwise report the log ratio that makes the pair reversible with respect to a prior that is uniform on the number of dimensions and on the domain.",
 ["inputs","configurations"],"all lattice models with every number of dimensions between the bounds, all random draws of birth and death",HIST,
 ["parameterization/_parameter_space.py","discretization/_voronoi.py","discretization/_discretization.py","perturbations/_birth_death.py"],
 [("birth/death of a parameter space","parameterization/_parameter_space.py"),("birth/death of a Voronoi tessellation","discretization/_voronoi.py")],
 ["new model and log ratio returned by the parameterization's perturbation functions"])
p("C03","Births from the neighbouring cell are exactly balanced by deaths",
 "In a 1D/2D Voronoi discretization whose births start from the neighbouring cell, the newborn cell's value of every parameter is the value of the cell containing the new site plus a zero-mean Gaussian deviate with that parameter's birth standard deviation at the new site. "
 "Birth and death report mutually reciprocal log ratios equal to log(prior ratio x proposal ratio), for any number of parameters, prior types and position-dependent hyperparameters, so that the pair is reversible with respect to the prior; a newborn value outside its prior's support gives minus infinity.",
 ["inputs","configurations"],"all lattice models with every number of cells, all random draws of birth and death, priors x birth standard deviations x 1D/2D",HIST,
 ["discretization/_discretization.py","discretization/_voronoi.py","prior/_prior.py","_utils_1d.pyx"],
 [("newborn values from the neighbour and their proposal density","discretization/_discretization.py"),("reverse density at death","discretization/_discretization.py"),("nearest neighbour","discretization/_voronoi.py")],
 ["new model and log ratio returned by the parameterization's perturbation functions"])
p("C04","Voronoi site moves are reversible and stay in the domain",
 "A site move picks one Voronoi site uniformly and displaces it by a zero-mean Gaussian with the configured standard deviation, all values staying attached to their cells; a displacement that leaves the domain (interval, box or polygon) is never accepted. "
 "The move is reversible with respect to the prior everywhere, including next to the domain boundary: its log ratio is the change in the prior density of the values of the moved cell when their prior depends on position, and zero otherwise.",
 ["inputs","configurations"],"all lattice tessellations incl. sites next to the boundary, all displacements, 1D, 2D box, 2D polygon, constant and position-dependent priors, with and without nested spaces",HIST,
 ["discretization/_voronoi.py","perturbations/_param_values.py"],
 [("site displacement and re-sorting","discretization/_voronoi.py")],
 ["new model and log ratio returned by the parameterization's perturbation functions"])
p("C05","Data-noise moves are reversible and stay within their bounds",
 "The move on unknown data noise perturbs the standard deviation (and, when noise is correlated, the correlation) of every target with unknown noise by a zero-mean Gaussian with the configured perturbation scale, and touches nothing else. "
 "It is reversible with respect to a uniform prior between the configured minimum and maximum, including close to these bounds, and a noise value outside them is never accepted.",
 ["inputs","configurations"],"all lattice noise states for 1-2 targets with/without correlation, all random draws",HIST,
 ["perturbations/_data_noise.py","likelihood/_target.py","likelihood/_log_likelihood.py"],
 [("noise perturbation","perturbations/_data_noise.py"),("initialization","likelihood/_target.py")],
 ["new model and log ratio returned by the likelihood's noise perturbation"])
p("C06","Moves on nested parameter spaces are reversible",
 "When parameter spaces or discretizations are nested in others, a move on an inner space changes exactly one instance of it, chosen uniformly among all instances present in the model, and leaves every other instance and level untouched. "
 "Every move at every level - including births and deaths of an outer dimension that create or remove whole inner spaces, from the prior or from the neighbouring cell - reports the log ratio that makes it reversible with respect to the joint prior (uniform numbers of dimensions at every level, uniform positions, the priors' densities for values).",
 ["inputs","configurations"],"all lattice models of small nested configurations (space in space, space in Voronoi, Voronoi in Voronoi), all random draws",HIST,
 ["perturbations/_param_space.py","parameterization/_parameter_space.py","discretization/_discretization.py","discretization/_voronoi.py"],
 [("instance selection","perturbations/_param_space.py"),("nested birth/death densities","discretization/_discretization.py")],
 ["new model and log ratio returned by the parameterization's perturbation functions"])
p("C07","A proposal is accepted exactly by the tempered Metropolis-Hastings rule",
 "In every iteration the chain chooses one perturbation with probability proportional to its weight, and moves to the proposed model with probability min(1, exp(r + (l' - l)/T)), where r is the log ratio reported by the perturbation, l and l' the log likelihoods of the current and proposed model (or the user-supplied log likelihood ratio) and T the chain temperature; otherwise the current model stays. "
 "A proposal with r = minus infinity is never accepted and its likelihood is not evaluated.",
 ["inputs","histories"],"all combinations of current model, proposal, reported ratio, likelihood form, temperature and uniform variate in the alphabet, along multi-step histories",
 "Tests never control the random variate; they only check that chains run.",
 ["_markov_chain.py","likelihood/_log_likelihood.py"],
 [("acceptance step","_markov_chain.py"),("tempered ratio","likelihood/_log_likelihood.py")],["chain state after each iteration"])
p("C08","Every reachable model is well formed",
 "Starting from initialization, every model a chain can hold or save has, at every nesting level, a number of dimensions within the configured bounds, exactly one value per dimension for every declared parameter and no others, and finite values within uniform-prior bounds. "
 "Voronoi sites are within the domain (interval, box, polygon), 1D sites are sorted in increasing order with each value staying paired with its own site, and noise parameters are within their bounds.",
 ["histories","inputs"],"all models reachable on a lattice from initialization by any sequence of accepted moves",
 "Tests look at a handful of random trajectories and only at marginal histograms.",
 ["parameterization/_parameter_space.py","discretization/_voronoi.py","_state.py","_utils_1d.pyx"],
 [("insertion/removal of dimensions","_utils_1d.pyx"),("sorting","discretization/_voronoi.py")],["current state of the chain; saved samples"])
p("C09","Proposing never alters the current model or saved samples",
 "Proposing, evaluating and rejecting (or accepting) a model leaves every other model - the current one, earlier ones and all samples already saved - unchanged in every value it holds, at every nesting level. "
 "A sample read from the results is therefore what the chain held when it was saved, whatever happens afterwards.",
 ["histories"],"all sequences of moves up to the depth bound from every initial lattice model, with deep comparison of all earlier models",
 "Aliasing between models shows only for particular sequences (e.g. birth then value move then rejection), and tests never compare models across iterations.",
 ["_state.py","perturbations/_param_space.py","perturbations/_param_values.py","discretization/_voronoi.py","_markov_chain.py"],
 [("copying of states","_state.py")],["states before/after each perturbation call; saved states"])
p("C10","The log likelihood ratio is the exact Gaussian likelihood ratio",
 "With targets and forward functions, the log likelihood ratio of two models equals, for every number of targets, data size and noise description (scalar, vector or full inverse covariance; unknown standard deviation with or without unknown correlation), the difference of the multivariate-Gaussian log densities of the data given each model, divided by the temperature. "
 "For unknown noise the covariance is sigma^2 r^|i-j|, and its inverse and log determinant are those of that matrix for every data size from 1 up; with a user-supplied log likelihood or log likelihood ratio the result is the difference, respectively the value, of that function divided by the temperature, and antisymmetric likelihood ratios result for targets.",
 ["inputs","configurations"],"all combinations of targets, sizes, noise kinds, noise values, predictions and temperatures in the alphabet, against dense linear algebra",
 "No test compares the likelihood to an independent computation; the boundary data sizes (1, 2) are never used.",
 ["likelihood/_log_likelihood.py","likelihood/_target.py","_utils_1d.pyx"],
 [("misfit and determinant","likelihood/_log_likelihood.py"),("closed-form inverse covariance","_utils_1d.pyx")],["log likelihood ratio of two states"])
p("C11","Cached predictions and neighbour trees always belong to their own model",
 "Predicted data, user-stored extra results and nearest-neighbour trees attached to a model are at all times those of that model's current parameter values: after any sequence of moves, acceptances, rejections and noise changes, a cached prediction equals the forward function applied to that model and a cached tree indexes that model's own sites in order. "
 "When tree computation is requested for a 2D discretization the tree is present on every model handed to the forward function, at every nesting level.",
 ["histories"],"all sequences of moves (incl. nested births) and accept/reject outcomes up to the depth bound",
 "Stale caches need a particular order of noise move, rejection and parameter move; tests never recompute predictions.",
 ["_state.py","likelihood/_log_likelihood.py","discretization/_voronoi.py","perturbations/_data_noise.py"],
 [("cache copy rules","_state.py"),("dpred cache","likelihood/_log_likelihood.py"),("kd-tree refresh","discretization/_voronoi.py")],["states seen by forward functions, cached values, saved predictions"])
p("C12","Samples are saved on schedule and stay aligned across keys",
 "A chain saves its state exactly at iterations i > burn-in with (i - burn-in) divisible by the saving interval, counted over the chain's whole life, and only while its temperature is 1; each saved sample is the model held after that iteration. "
 "For every model parameter, prediction and extra result the k-th saved entry comes from the same iteration and the same model, the number of dimensions being saved for trans-dimensional top-level spaces only, and predictions only when requested.",
 ["histories","configurations"],"all (iterations, burn-in, saving interval) triples and sequences of runs up to the bound, all accept/reject patterns, all state types",
 "Tests use one schedule and never match saved predictions to saved parameters.",
 ["_markov_chain.py","_bayes_inversion.py","_state.py"],
 [("saving rule","_markov_chain.py")],["saved states of each chain; results"])
p("C13","Proposal and acceptance statistics count exactly what happened",
 "After any history, the chain's total proposal count equals the number of completed iterations and the total acceptance count the number of accepted proposals; per perturbation (and, for parameter-space moves, per kind of move) the counts equal the number of times it was proposed, respectively accepted, and sum to the totals. "
 "Failed forward or user-function evaluations are counted by exception type and never as proposals.",
 ["histories","fault_sequences"],"all sequences of moves, outcomes and failures up to the bound",
 "Statistics are only printed by the tests.",
 ["_markov_chain.py","perturbations/_param_space.py"],
 [("statistics update","_markov_chain.py")],["chain statistics"])
p("C14","Failures in user functions neither corrupt nor stall the chain",
 "If a forward function, user perturbation or user likelihood raises, the proposal is discarded, the current model, its cached predictions and the saved samples stay as they were, and the same iteration is retried with a newly chosen perturbation, so each iteration still produces exactly one proposal and the saving schedule is unaffected. "
 "Only 500 consecutive failures within one iteration raise an error, which carries the last failure as its cause; 499 do not.",
 ["fault_sequences"],"all patterns of failures over the calls of the first iterations, per failing function and exception type, and the 498-501 failure boundary",
 "Tests contain no failing user function.",
 ["_markov_chain.py","_utils.py","likelihood/_log_likelihood.py","exceptions/_exceptions.py"],
 [("retry loop","_markov_chain.py"),("exception wrapping","_utils.py")],["chain state, statistics and raised exception"])
p("C15","Parallel tempering swaps temperatures reversibly and counts iterations",
 "Parallel tempering assigns the configured ladder (the configured share of chains, at least two, at temperature one, the rest spaced geometrically up to the maximum) and afterwards only ever swaps temperatures between pairs of distinct chains, with probability min(1, exp((1/T1 - 1/T2)(l2 - l1))) for untempered log likelihoods l1, l2 of the chains' current models; models and saved samples stay with their chain. "
 "Each run advances every chain by exactly the requested number of iterations, in batches of at most the swap interval, and every batch observes the burn-in and saving schedule in the chain's own iteration count.",
 ["histories","configurations","inputs"],"all chain counts, ladders, swap intervals, burn-ins and run sequences up to the bound; all pair choices and uniform variates at a swap",
 "Tests never run parallel tempering to the point of checking a swap, and burn-in shorter than one swap interval hides the schedule.",
 ["samplers/_samplers.py","_markov_chain.py"],
 [("ladder, swap and batching","samplers/_samplers.py")],["chain temperatures, iteration counts and saved samples"])
p("C16","Simulated annealing cools on schedule and samples only at temperature one",
 "With simulated annealing the temperature at iteration i of the burn-in is T0 exp(-i log(T0)/burn-in) and exactly one from the end of the burn-in on, for every chain and every sequence of runs. "
 "Samples are saved only after burn-in, on the saving schedule.",
 ["histories","configurations"],"all (T0, burn-in, iterations, saving interval) and run sequences up to the bound",
 "Tests do not run simulated annealing twice nor look at temperatures.",
 ["samplers/_samplers.py","_markov_chain.py"],
 [("cooling","samplers/_samplers.py")],["temperature seen by each iteration; saved samples"])
p("C17","Sampler hooks are called in order, once, with the right chain",
 "For every sampler, initialization hooks run once per run before any iteration, begin/end-iteration hooks run exactly once around each iteration of each chain with that chain as argument, and end-of-batch hooks run once after each batch of iterations; the sampler's own hook runs before user hooks, which run in registration order. User hooks find the chains of the run on the sampler they are given. "
 "Nothing else happens to the chain between its begin and end hooks than one iteration.",
 ["histories","configurations"],"all samplers, numbers of hooks, chains, batches and runs up to the bound",
 "No test registers hooks.",
 ["samplers/_samplers.py","_markov_chain.py"],
 [("hook dispatch","samplers/_samplers.py")],["call log of user hooks"])
p("C18","Chains do not influence each other under any interleaving",
 "However the iterations of several chains interleave - sequentially, in threads or in worker processes - each chain's trajectory, statistics and saved samples are those it would have had alone with the same random draws. "
 "Chains share no mutable state through the parameterization, likelihood, perturbations, sampler or starting states, and results come back in chain order.",
 ["schedules"],"all interleavings of two chains at source-line granularity up to the preemption bound, plus all batchings with worker processes",
 "Tests run chains in separate processes or alone and never compare trajectories.",
 ["_markov_chain.py","samplers/_samplers.py","perturbations/_param_space.py","likelihood/_log_likelihood.py","discretization/_voronoi.py"],
 [("per-chain state","_markov_chain.py"),("parallel dispatch","samplers/_samplers.py")],["trajectory and saved samples of each chain"])
p("C19","Results are exactly the chains' saved samples",
 "Results contain, for the requested keys (all by default), every saved sample of every chain once, in chain order and then saving order: one flat list per key when concatenated, one list per chain (that saved any) otherwise; for models that are neither dictionaries nor states a plain list in the same order. "
 "Reading results changes nothing, and reading them again, or after more iterations, returns the earlier samples as a prefix per chain.",
 ["inputs","histories"],"all combinations of chain counts, per-chain sample counts, key requests, state types and concatenation flags, repeated",
 "Tests read one key from one configuration.",
 ["_bayes_inversion.py","_markov_chain.py"],
 [("aggregation","_bayes_inversion.py")],["returned results"])
p("C20","1D Voronoi cell geometry is exact for every tessellation",
 "For every sorted set of sites, from a single cell up, and bounds that are finite or absent on either side, the cell extents are the distances between consecutive midpoints, the outer cells reaching to the given bounds; the extent of a cell with an absent bound is the given fill value. "
 "Interface positions computed from sites are the midpoints, and those computed from extents agree with them.",
 ["inputs"],"all site lists on a lattice up to the size bound, all bound/fill combinations",
 "No test calls these functions on one cell or without bounds.",
 ["_utils_1d.pyx","discretization/_voronoi.py"],
 [("cell extents","_utils_1d.pyx"),("interfaces","discretization/_voronoi.py")],["returned arrays"])
p("C21","Tessellation interpolation and ensemble statistics are exact",
 "Interpolating a 1D or 2D tessellation gives, at every query point, the value of the cell that contains it (nearest site, or the layer containing the depth when cells are given as thicknesses, the last layer extending downward), the same cell as used when births start from the neighbouring cell. "
 "Ensemble mean, median, standard deviation, percentiles and density are those of the interpolated samples, each sample counted once, whatever the number of cells in each sample.",
 ["inputs"],"all tessellations and query points on a lattice up to the size bound, all small ensembles",
 "No test checks an interpolated value.",
 ["_utils_1d.pyx","discretization/_voronoi.py"],
 [("nearest/depth interpolation","_utils_1d.pyx"),("statistics","discretization/_voronoi.py")],["returned arrays"])
p("C22","Initialization and prior sampling draw exactly from the prior",
 "Sampling a prior, or initializing a parameter at given positions, draws each value independently with the prior's own density at its position; sampling a parameter space or discretization draws the number of dimensions uniformly between its bounds and positions uniformly over the domain, and initialization draws the number of dimensions uniformly from the minimum up to the configured fraction of the range. "
 "This holds for every prior, constant or position-dependent, in parameter spaces and 1D/2D discretizations at every nesting level, with custom initializers used when set.",
 ["inputs","configurations"],"all random draws of sample/initialize on a lattice for the alphabet of priors and spaces",
 HIST,["prior/_prior.py","parameterization/_parameter_space.py","discretization/_voronoi.py","discretization/_discretization.py","likelihood/_target.py"],
 [("sample/initialize","prior/_prior.py"),("space initialization","parameterization/_parameter_space.py")],["returned values and states"])
p("C23","Reconfiguring an inversion keeps likelihood, moves and chains consistent",
 "After any sequence of adding targets, replacing perturbation functions, replacing chains and running, every chain uses the current targets, forward functions, perturbations and weights: targets added later behave exactly like targets given at construction, hierarchical ones being initialized on every chain and perturbed. "
 "Invalid requests (duplicate target, space or parameter names, a birth without its death, mismatched lengths, targets, forward functions or chains of the wrong type) raise an error and leave the configuration as it was; unequal birth and death weights are made equal.",
 ["histories","configurations"],"all sequences of configuration operations up to the depth bound over an alphabet of valid and invalid operations",
 "Tests configure each inversion once.",
 ["likelihood/_log_likelihood.py","_bayes_inversion.py","_markov_chain.py","parameterization/_parameterization.py"],
 [("target observers","likelihood/_log_likelihood.py"),("perturbation validation","_bayes_inversion.py")],["log likelihood ratios, proposals and errors after each operation"])
p("C24","A model's access paths and copies agree",
 "For every model, reading a value by item, by attribute, through the dictionary view or from the saved results gives the same data, also after any sequence of updates, copies, moves and selections of dimensions. "
 "A copy holds equal values, shares no mutable parameter data with the original and starts without the original's predictions and extra results; malformed models (wrong lengths at construction, wrong types at any time) are refused.",
 ["histories","inputs"],"all sequences of set/copy/select/perturb operations up to the depth bound on all small models",
 "Tests access values in one way only.",
 ["_state.py","perturbations/_param_values.py","perturbations/_data_noise.py"],
 [("attribute mirroring","_state.py")],["values read through each path"])
p("C25","Prior densities are the documented ones",
 "The log prior of each built-in prior equals the log density of the documented distribution at the given value and position, minus infinity outside the support, position-dependent hyperparameters being linearly interpolated between the given nodes (held constant beyond the ends in 1D, refused outside the hull in 2D). "
 "The joint log prior of a (nested) ParameterSpace is the sum over all its dimensions, parameters and nested spaces.",
 ["inputs","configurations"],"all values, positions and hyperparameter choices on a lattice, against independently written densities",
 "One test evaluates one joint log prior with constant hyperparameters.",
 ["prior/_prior.py","parameterization/_parameter_space.py","_utils_1d.pyx"],
 [("log densities","prior/_prior.py"),("interpolation","_utils_1d.pyx")],["log prior values"])
p("C26","One full iteration leaves the tempered posterior invariant",
 "For every configuration of parameter spaces, discretizations, unknown noise and targets, at any temperature T, one complete iteration of a chain satisfies detailed balance with respect to prior x likelihood^(1/T) between every two models it connects. "
 "This holds for the composition of everything an iteration does: choosing a move, choosing an instance and a dimension, drawing, evaluating and accepting.",
 ["inputs","configurations"],"all pairs of lattice models, all random draws of one iteration, several temperatures and likelihoods",
 HIST,["_markov_chain.py","likelihood/_log_likelihood.py","perturbations/_param_space.py","perturbations/_data_noise.py","discretization/_voronoi.py"],
 [("iteration","_markov_chain.py")],["chain state after one iteration"])
p("C27","User functions are called with exactly the model and extra arguments given",
 "Perturbation, likelihood and forward functions may be given as a callable or as a sequence of callable, positional and keyword arguments; however given, each call receives the model(s) followed by exactly those arguments, and its return value is used unchanged. "
 "With the low-level interface, models of any type (numbers, arrays, dictionaries, arbitrary objects) are carried, accepted, rejected and saved unchanged, and each chain starts from its own starting model.",
 ["inputs","configurations"],"all forms of giving a function x state types x outcomes, along short histories",
 "Tests use plain functions on one state type.",
 ["_utils.py","_bayes_inversion.py","likelihood/_log_likelihood.py","_markov_chain.py"],
 [("argument binding","_utils.py")],["arguments received by user functions; results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
