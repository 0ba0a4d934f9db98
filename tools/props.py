"""Regenerates properties.jsonl (kept as code so that entries stay uniform)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


p("C01", "The default Ising sampler simulates exactly the model it was given",
  "For any fields and couplings, the Markov chain behind the compiled Ising sampler preserves the Boltzmann law "
  "p(s) ~ exp(sum h_i s_i + sum_{i<j} J_ij s_i s_j) over {-1,+1}^n and can get from any state to any other, both with random and "
  "(updating spin 0,1,..,n-1 in turn) systematic iteration. Samples start from a uniformly random state, the first is taken after "
  "burn_in + n_iters updates and each next one n_iters updates later, with burn_in defaulting to n_iters only when it is not given. "
  "This holds through every public route (sampler, model object, one-call helper, after parameters are replaced).",
  ["inputs", "histories"], "all parameter vectors, all answers of the random source, all (sample size, burn-in, spacing) schedules",
  "test_samplers.py draws one pseudo-random sample for a few parameters and compares correlations within a loose tolerance; a biased "
  "acceptance rule, a missed coupling for one pair or an off-by-one in spacing is inside that noise.",
  ["cpp/samplers.cpp", "cpp/py.cpp", "coniii/samplers.py", "coniii/models.py"],
  [("Ising::sample_metropolis acceptance", "cpp/samplers.cpp"), ("Sampler::generate_sample burn in and spacing", "cpp/samplers.cpp"),
   ("Metropolis.generate_sample_boost", "coniii/samplers.py"), ("Model.generate_sample", "coniii/models.py")],
  ["BoostIsing.fetch_sample", "Metropolis.sample"])

p("C02", "The pure-Python Metropolis sampler is exact for any energy function",
  "For any energy function over {-1,+1}^n, a Metropolis update preserves p(s) ~ exp(-E(s)), reaches every state, changes the state "
  "in place by at most the chosen spin and returns exactly the energy difference it caused. Generated samples are n_iters updates apart after "
  "burn_in updates from the given start (else the last state of the previous sequential run, else a uniformly random state), with systematic iteration cycling through all spins, the reported energies equal to the "
  "energies of the returned samples, and the optional history equal to the energy after every update.",
  ["inputs", "histories"], "all energy functions (tables over the states), all start states, all answers of the random generator, all schedules",
  "Tests only compare correlations of one random run of the pairwise model within tolerance; energies, history and systematic iteration are never examined.",
  ["coniii/samplers.py"],
  [("Metropolis.sample_metropolis", "coniii/samplers.py"), ("Metropolis.generate_sample_py", "coniii/samplers.py"),
   ("Metropolis.update_parameters", "coniii/samplers.py")], ["Metropolis.sample", "Metropolis.E", "returned history"])

p("C03", "The 3-state Potts sampler simulates exactly the Potts model",
  "For any fields (one per spin and state) and couplings, every sampling route of the 3-state Potts sampler produces states over {0,1,2}, preserves "
  "p(s) ~ exp(sum h_{s_i,i} + sum_{i<j} J_ij [s_i = s_j]), proposes both alternative states and can reach every state. This holds for the compiled and the "
  "pure-Python implementation, whether samples are drawn sequentially or in parallel, and for a copy that has been pickled.",
  ["inputs", "configurations"], "all parameter vectors, all start states, all answers of the random source, each implementation and route",
  "The only Potts tests compare one random run of the parallel routine with enumeration within 0.1-level tolerances; the sequential route and the pickling are untested.",
  ["cpp/samplers.cpp", "coniii/samplers.py", "coniii/models.py"],
  [("Potts3::sample_metropolis", "cpp/samplers.cpp"), ("Potts3.sample_metropolis / generate_sample_parallel_boost", "coniii/samplers.py"),
   ("potts3_pickle_suite", "cpp/py.cpp")], ["Potts3.sample"])

p("C04", "Conditional sampling fixes the given spins and samples the conditional law",
  "Sampling with a non-empty proper subset of spins held fixed returns full states in which exactly those spins have the given values at every row, while the remaining spins "
  "follow a chain that preserves the conditional Boltzmann distribution given the fixed values, reaches every completion, and respects burn_in and n_iters. "
  "It holds for every subset and values, for random and systematic iteration, sequentially or in parallel, and in both implementations; reported energies, and the energy as a function of the free spins, are those of the full states.",
  ["inputs", "configurations"], "all fixed subsets and values, all parameter vectors, all answers of the random source, both implementations",
  "One test draws one conditional sample per implementation; the insertion of fixed spins depends on subset shape and sample size, which tests do not vary.",
  ["cpp/samplers.cpp", "coniii/samplers.py"],
  [("Sampler::generate_cond_sample index bookkeeping", "cpp/samplers.cpp"), ("Metropolis.generate_cond_sample_py re-insertion", "coniii/samplers.py"),
   ("Metropolis.generate_cond_sample_boost / define_jit_cond_calc_e", "coniii/samplers.py")], ["Metropolis.sample", "Metropolis.E"])

p("C05", "Parallel sampling is independent of worker scheduling and reproducible by seed",
  "Parallel sampling returns exactly the requested number of samples whatever the number of workers, and its result depends only on the seed, the arguments and the number of workers, never on "
  "the order in which workers run or finish. Workers run on distinct seeds drawn from the sampler's own generator and each of them follows the same chain law as sequential sampling from a uniformly random start; "
  "equal seeds give equal results and different seeds give different results for every seeded entry point.",
  ["schedules", "inputs", "histories"], "all worker execution and completion orders, all sample sizes versus worker counts, all seeds in the alphabet",
  "A test run sees one operating-system schedule and one worker count.",
  ["coniii/samplers.py", "coniii/models.py", "cpp/samplers.cpp"],
  [("Metropolis.generate_sample_parallel_boost / _py", "coniii/samplers.py"), ("generate_cond_sample_boost", "coniii/samplers.py"),
   ("Potts3.generate_sample_parallel_boost", "coniii/samplers.py"), ("Model.set_rng", "coniii/models.py")], ["Metropolis.sample"])

p("C06", "Parallel tempering samples the joint law of its replicas",
  "Each replica of the parallel tempering sampler follows the Boltzmann law of its own inverse temperature, swaps between neighbouring replicas are accepted with a probability that keeps the product law invariant, and after any "
  "number of swaps every replica keeps its own temperature, its stored energy is the energy of its stored state at that temperature, and the replica labels stay a permutation. "
  "The highest temperature may be infinite; inverse temperatures stay in increasing order with the lowest temperature fixed and are spaced by the mean exchange probabilities of the sampled replicas, and the requested number of samples is recorded per replica.",
  ["histories", "inputs"], "all replica states, all answers of the random generator, all swap histories up to the bound",
  "The test only checks that one run ends with roughly right correlations.",
  ["coniii/samplers.py"],
  [("ParallelTempering.burn_and_exchange", "coniii/samplers.py"), ("ParallelTempering.iterate_beta / initialize_beta", "coniii/samplers.py"), ("ParallelTempering._acceptance_ratio", "coniii/samplers.py")],
  ["ParallelTempering.sample", "ParallelTempering.sampleIndex"])

p("C07", "Shipped exact solutions equal brute-force enumeration of the model",
  "For every system size shipped, in the +/-1 and the 0/1 basis and for the triplet model, the computed observables are the Boltzmann averages and the computed probabilities are the Boltzmann probabilities "
  "of every state in the documented state order, for all parameter values. Probabilities are non-negative and sum to one, and the averages agree with them.",
  ["inputs"], "all parameter vectors, all states, all shipped sizes",
  "Tests check sizes 3-5 at zero or one random parameter vector; a wrong sign in one of thousands of generated terms is invisible at zero.",
  ["coniii/ising_eqn", "coniii/models.py", "coniii/enumerate.py"],
  [("calc_observables and p of the generated modules", "coniii/ising_eqn"), ("Ising.calc_observables / calc_p", "coniii/models.py")], ["calc_observables", "p"])

p("C08", "Equation generators write code that computes the exact model",
  "For every system size, basis, interaction order and precision option that the generators accept, the file they write computes exactly the Boltzmann averages and state probabilities of the model that was asked for, "
  "in the documented parameter and state order. This covers pairwise Ising in both bases, triplet models, high-precision output and the multi-state Potts generator for every number of states, with per-state fields and a coupling that counts agreement.",
  ["programs", "inputs"], "all generated programs in the supported options up to the size bound, all parameter vectors of the alphabet, all states",
  "Tests generate a handful of sizes and evaluate them at few parameter vectors.",
  ["coniii/enumerate.py", "coniii/enumerate_potts.py"],
  [("write_eqns and pairwise/triplet", "coniii/enumerate.py"), ("SpecificFieldGenericCouplings.write", "coniii/enumerate_potts.py")], ["generated modules"])

p("C09", "Converting parameters or correlations between bases preserves the model",
  "Converting Ising parameters between the {0,1} and {-1,+1} bases gives a model with the same probability for every corresponding state, converting correlations gives the correlations of the same distribution in the other basis, and "
  "converting there and back is the identity. This holds for every accepted input form and for models with couplings up to the supported order, and the input arrays are left unchanged.",
  ["inputs"], "all parameter vectors and distributions over the states up to the size bound, each input form, both directions",
  "Tests convert one random vector and check one direction.",
  ["coniii/utils.py"], [("convert_params", "coniii/utils.py"), ("ising_convert_params", "coniii/utils.py"), ("convert_corr", "coniii/utils.py")], ["return values"])

p("C10", "Pair indexing and vector/matrix forms are mutually inverse bijections",
  "The mapping between a pair (i,j), i<j<n, in either order, and its position in a coupling vector is a bijection that agrees with upper-triangular row order for every n, as is its generalisation to higher order subsets. "
  "Packing fields and couplings into a matrix and back, splitting and joining parameter vectors, and replacing or zeroing diagonals lose nothing and change nothing else.",
  ["inputs"], "all n up to the bound, all pairs and indices, all unit parameter vectors",
  "Tests check a couple of indices at one n.",
  ["coniii/utils.py"], [("sub_to_ind / ind_to_sub / unravel_index", "coniii/utils.py"), ("vec2mat / mat2vec / split_concat_params / replace_diag / zero_diag", "coniii/utils.py")], ["return values"])

p("C11", "State enumeration lists every state exactly once in counting order",
  "Enumerating binary or multi-state configurations yields every state exactly once in increasing counting order with the most significant unit first, in the requested basis and identically in its eager and lazy forms. "
  "Writing an integer in base 2 to 36 gives the standard digits, with leading zeros exactly when asked. "
  "The counting coefficients that go with it are exact: a multinomial coefficient is the number of arrangements, and an expanded binomial product has one term per subset.",
  ["inputs"], "all sizes, bases and integers up to the bound",
  "Tests look at a few sizes; base conversion is tested for small bases only.",
  ["coniii/utils.py"], [("bin_states / xbin_states / xpotts_states", "coniii/utils.py"), ("base_repr", "coniii/utils.py"), ("multinomial / _expand_binomial", "coniii/utils.py")], ["return values"])

p("C12", "Data statistics equal their definitions for every data set",
  "Means, pairwise and higher order correlations, optionally weighted or excluding empty entries, the frequencies of states, overlaps and unique rows computed from a data set equal their textbook definitions, "
  "for every data set, ordering of rows and admissible option. Unique-row indices point to first occurrences, inverse indices reconstruct the data, counts add up, and state probabilities sum to one over the observed or requested states.",
  ["inputs"], "all data sets over the state alphabet up to a number of rows and columns, all weights in the alphabet, all options",
  "Tests compute them on one random sample against a variant of the same code.",
  ["coniii/utils.py"], [("pair_corr / k_corr", "coniii/utils.py"), ("state_probs / unique_rows / calc_overlap", "coniii/utils.py")], ["return values"])

p("C13", "Model helper functions agree with the model definition",
  "For each model family the energy equals minus the inner product of parameters and observables of the state, the observables are the documented functions of the state, and derivatives and neighbour lists used for fitting "
  "match: the derivative of energy with respect to a parameter is minus its observable and the neighbours of a state are exactly those differing in one unit. The histogram reweighting step predicts exactly "
  "the averages of the sampled states reweighted by the parameter change.",
  ["inputs"], "all states, all parameter vectors of the alphabet, all small samples, each model family",
  "Tests exercise the Ising helpers on one random input each.",
  ["coniii/utils.py"], [("define_*_helper_functions", "coniii/utils.py"), ("adj / adj_sym / calc_de", "coniii/utils.py")], ["return values"])

p("C14", "Exact inversion recovers the unique model matching the given correlations",
  "Solving by enumeration from the correlations (or a sample) of any small model returns, when it reports success, parameters whose exact correlations match the constraints, i.e. the original parameters, and never parameters beyond the bound it was given. The sparse solver matches exactly the selected constraints, "
  "for any non-empty selection, and returns the selected parameters in increasing index order with all others exactly zero; constraints passed explicitly override those of the sample.",
  ["inputs", "configurations"], "all parameter vectors of the alphabet, all samples up to a bound, all parameter subsets, every way of passing constraints",
  "Tests solve one random system; sparse selections are tested in one configuration.",
  ["coniii/solvers.py"], [("Enumerate.solve", "coniii/solvers.py"), ("SparseEnumerate.solve", "coniii/solvers.py"), ("Solver.set_insertion_ix / fill_in", "coniii/solvers.py")], ["returned multipliers"])

p("C15", "Minimum probability flow optimises its documented objective",
  "For every data set the flow objective equals the average over data of sum over allowed neighbouring states of exp((E(data)-E(neighbour))/2), its logarithmic form is its exact logarithm, gradients equal the true derivatives whenever energy derivatives are supplied, and "
  "allowed neighbours are all single-unit changes or only those not in the data set as requested. The returned parameters, expressed in the +/-1 basis, minimise the objective, and user-supplied neighbour and derivative functions are used.",
  ["inputs", "configurations"], "all data sets up to a bound, all parameter vectors of the alphabet, each option",
  "The test only checks that one random sample yields roughly right parameters.",
  ["coniii/solvers.py"], [("MPF.K / logK", "coniii/solvers.py"), ("MPF.list_adjacent_states / solve", "coniii/solvers.py")], ["returned multipliers", "K", "logK"])

p("C16", "Pseudolikelihood maximisation optimises the true pseudolikelihood",
  "For every data set and model family the objective that is maximised equals the log pseudolikelihood (the sum over data and units of the log conditional probability of each unit given the others), its gradient and Hessian are the true derivatives, and the "
  "returned parameters are stationary points of it up to the documented averaging of the two couplings of each pair. The solution does not depend on the order of rows in the data.",
  ["inputs"], "all data sets up to a bound, all parameter vectors of the alphabet, each model family and method",
  "The test only checks approximate agreement on one random sample.",
  ["coniii/solvers.py", "coniii/utils.py"], [("Pseudo._solve_ising / _solve_potts / _solve_general", "coniii/solvers.py"), ("cond_log_likelihood / cond_jac / cond_hess", "coniii/solvers.py"),
   ("define_pseudo_ising_helper_functions / define_pseudo_potts_helper_functions", "coniii/utils.py")], ["returned multipliers"])

p("C17", "The adaptive cluster expansion is exact without truncation",
  "With zero threshold the cluster expansion returns the exact entropy and exactly the parameters that reproduce the given correlations, with or without the mean-field reference; with a threshold it keeps exactly the clusters whose entropy contribution strictly exceeds the threshold and that are "
  "built from kept smaller clusters, and the result is the sum of the contributions of the kept clusters. Every contribution is that of its cluster less those of the reference and of all smaller parts, also with a prior, and results depend neither on how clusters are ordered nor on contributions kept from earlier runs.",
  ["inputs", "configurations"], "all small systems over the parameter alphabet, all thresholds between contributions",
  "The test compares one random system at zero threshold.",
  ["coniii/solvers.py", "coniii/mean_field_ising.py"], [("ClusterExpansion.adaptiveClusterExpansion / deltaS / S", "coniii/solvers.py"), ("SmeanField / JmeanField", "coniii/mean_field_ising.py")], ["returned J, S, clusters"])

p("C18", "Monte Carlo histogram fitting reports honestly when it converged",
  "Fitting by Monte Carlo histogram returns 'converged' exactly when the errors measured on the sample of the returned parameters are within both tolerances, otherwise it returns 'iteration limit' after no more than the allowed number of rounds; the error history has one entry per sampling round and each entry is "
  "the deviation measured on that round's sample. Each parameter step stops within the allowed step limits plus one move and predicts by reweighting the last sample, and the sparse form changes only the selected parameters.",
  ["histories", "inputs"], "all sequences of samples a sampler could return up to the bound, all tolerances of the alphabet, all step settings",
  "Tests run a few random fits and look at the final parameters.",
  ["coniii/solvers.py"], [("MCH.solve / learn_parameters_mch", "coniii/solvers.py"), ("SparseMCH.solve / learn_parameters_mch", "coniii/solvers.py")], ["errflag", "errors", "model.sample", "multipliers"])

p("C19", "A model object always uses its current parameters and generator",
  "After any sequence of operations on a model object (building it from any accepted form, replacing parameters, replacing the random generator, building a sampler, sampling with or without overriding parameters), exact averages and probabilities are those of the parameters last set, samples "
  "are drawn from the parameters in force for that call with the generator last set, and overriding parameters for one call does not change the model. Equivalent input forms build equal models and caller-owned arrays are never modified.",
  ["histories", "inputs"], "all operation sequences up to the depth bound, all input forms",
  "Tests build a model once and use it once.",
  ["coniii/models.py", "coniii/samplers.py"], [("Model/Ising/Triplet/Potts3 constructors", "coniii/models.py"), ("set_multipliers / set_rng / setup_sampler / generate_sample", "coniii/models.py")],
  ["calc_observables", "calc_p", "sample"], [("multipliers", "current parameters", "coniii/models.py"), ("rng", "generator shared with the sampler", "coniii/models.py")])

p("C20", "Coarse graining merges every unit into exactly one group",
  "Coarse graining a data set produces groups that partition the original units (each exactly once), and every coarse unit is the caller's coarse-graining function applied to the merged pair (or the left-over unit). "
  "Pairs are merged greedily, always a most similar remaining pair under the caller's similarity function, whatever the choice among ties. This holds for every data set, including negatively similar or constant units.",
  ["inputs"], "all data sets up to a bound, all similarity outcomes",
  "The test uses one random sample with positive similarities.",
  ["coniii/utils.py"], [("coarse_grain_with_func", "coniii/utils.py")], ["coarse data", "groups"])

p("C21", "Energy landscape tools find the true local minima of an Ising system",
  "The correlations, spin-flip energy changes and basins reported for an Ising system match its definition: the energy change of a flip is the exact energy difference, following a basin always ends in a state from which no single flip lowers the energy, every step lowers the energy, and "
  "a local minimum is returned unchanged. Results do not depend on the input form of fields and couplings.",
  ["inputs", "histories"], "all states, all parameter vectors of the alphabet, both input forms",
  "The single test looks at one ferromagnetic example.",
  ["coniii/ising/utils.py"], [("Ising.find_basin / neighbor_dE", "coniii/ising/utils.py")], ["return values"])

p("C22", "The 2-D lattice automaton is a correct Metropolis simulation",
  "An update of the two-dimensional lattice automaton preserves the Boltzmann law of E = -J sum over periodic nearest neighbour pairs s s' - sum h s (a scalar or one field per site), and single random updates reach every lattice. "
  "Random mode does exactly the requested number of updates, systematic mode whole sweeps (rounded up) that visit every site once in random order. Coarse graining replaces each block with its majority, ties being random, and results depend only on the supplied generator.",
  ["inputs", "histories"], "all lattice states of the small lattices, all fields and temperatures of the alphabet, all answers of the random generator",
  "There is no test.",
  ["coniii/ising/automaton.py"], [("Ising2D.iterate / flip_metropolis", "coniii/ising/automaton.py"), ("coarse_grain", "coniii/ising/automaton.py")], ["lattice"])

p("C23", "The Wolff cluster sampler preserves the Boltzmann law",
  "One cluster update preserves the Boltzmann distribution for any couplings and fields, flips either a whole cluster or nothing, grows clusters only through pairs whose alignment is favoured, and can start from any site. "
  "Every generated sample is the result of the requested number of updates.",
  ["inputs", "histories"], "all states, all start sites, all bond and acceptance outcomes, all parameter vectors of the alphabet",
  "There is no test of this sampler.",
  ["coniii/samplers.py"], [("WolffIsing.one_step / build_cluster / find_neighbors", "coniii/samplers.py"), ("iterate_neighbors", "coniii/samplers.py")], ["sample"])

p("C24", "Results depend on values only, and caller data are never modified",
  "For every public sampler, solver and statistic, the result depends only on the numerical values of the arrays passed in, not on their dtype, memory order or strides, and no array passed in is modified unless documented. "
  "Repeating a call on the same object with the same inputs and generator state gives the same result.",
  ["inputs", "configurations"], "all entry points crossed with all array layouts (dtype, order, strided, reversed, read-only) of the alphabet",
  "Tests always pass fresh contiguous float arrays.",
  ["cpp/samplers.cpp", "coniii/samplers.py", "coniii/solvers.py", "coniii/utils.py", "coniii/models.py"],
  [("readin_multipliers raw pointer access", "cpp/samplers.cpp"), ("copying of parameters", "coniii/models.py")], ["return values", "argument arrays"])

p("C25", "Estimated log-likelihoods and sparse parameter filling are exact",
  "The estimated log-likelihood of a state equals the log of the fraction of the model sample agreeing with it on every specified unit (unspecified units, marked zero, are ignored), in the order of the queried states, for one state or many. "
  "Filling a sparse parameter vector puts each value at its index and the fill value everywhere else, for every subset of indices.",
  ["inputs"], "all samples and queried states up to a bound, all index subsets",
  "There is no test of either.",
  ["coniii/solvers.py"], [("Solver.logp", "coniii/solvers.py"), ("Solver.set_insertion_ix / fill_in", "coniii/solvers.py")], ["return values"])

p("C26", "Mean-field formulas are exact where the theory is and mutually consistent",
  "Without a prior the mean-field couplings and fields are the derivatives of the mean-field entropy with respect to pair and single-unit frequencies, with a prior they solve the regularised equations, and both are exact for independent units; this holds for any cluster of units in any order and for upper triangular or full tables. "
  "Exact correlations, entropies and numerical inversions of the mean-field module agree with enumeration of all states, formulas for homogeneous systems agree with the sum over states, and flattening, unflattening and symmetrising parameter matrices invert each other. "
  "Co-occurrence statistics equal their definitions for every sample and numeric type.",
  ["inputs"], "all correlation tables of the small systems over the parameter alphabet, all ordered clusters, all samples up to a bound",
  "There is no direct test of this module.",
  ["coniii/mean_field_ising.py"], [("SmeanField / JmeanField / findJmatrixAnalytic_CoocMat / coocExpectations / SHomogeneous", "coniii/mean_field_ising.py")], ["return values"])

p("C27", "Regularised mean-field inversion returns its best candidate",
  "The regularised mean-field solver returns, in the +/-1 basis, the mean-field inversion of the data at the non-negative regularisation strength whose sampled statistics mismatch the data least among the strengths it tried. "
  "The mismatch is the sum of squared deviations, in standard deviations of the data, between means and pair correlations of the data and of a sample of that very candidate, drawn from the same generator state each time. "
  "Given a bracket it tries every grid value, brackets an interior minimum by strictly larger values that are as small as possible, and raises an error if there is none.",
  ["inputs", "histories"], "all samples up to a bound, all assignments of sampled outcomes to the grid of strengths",
  "The test only checks that the solver can be constructed.",
  ["coniii/solvers.py", "coniii/mean_field_ising.py"], [("RegularizedMeanField.solve / bracket1d", "coniii/solvers.py")], ["returned multipliers", "multipliers put to the model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
