SAMP = [S + f for f in ('gibbs.py', 'blockgibbs.py', 'hammingball.py',
                        'randomwalk.py', 'gwg.py', 'path_auxiliary.py',
                        'dlmc.py', 'dmala.py')]
STEP = [('step', 'discs/samplers: step of each sampler')]

kernel('S10', 'Every step stays in the sample space and respects the mask',
       'Every state a sampler can return from a valid state is a valid state: '
       'same shape, integer, each site one of the categories. When a mask is '
       'given to a sampler that accepts one (gibbs-with-gradients and path '
       'auxiliary), sites the mask excludes never change.',
       SAMP, STEP)
kernel('S11', 'Adaptation follows the acceptance rate and stays in range',
       'With adaptation on, each step moves the proposal radius by the mean '
       'acceptance probability minus the target rate and keeps it between 1 '
       'and the number of sites; with adaptation off the radius never moves. '
       'The Langevin samplers keep a finite step size: each step after the '
       'first moves the expected number of flips (step size times total jump '
       'rate) by three times acceptance minus target, never below one, and the '
       'total jump rate is re-estimated from the current states on every step '
       'of the warm-up schedule and every reset_z_est steps, else kept.',
       [S + f for f in ('locallybalanced.py', 'randomwalk.py', 'gwg.py',
                        'path_auxiliary.py', 'dlmc.py', 'dmala.py')],
       [('update_sampler_state', 'discs/samplers: update_sampler_state of each sampler')])
kernel('S12', 'Evaluation and step counters count what happened',
       'After each step the carried counter of likelihood calls has grown by '
       'exactly the number of model evaluations that step made per chain (a '
       'value-and-gradient call counting two), and the step counter by one. '
       'Efficiency comparisons between samplers divide by these counters.',
       SAMP + [S + 'abstractsampler.py'],
       [('counters', 'discs/samplers: update_sampler_state of each sampler')],
       q='every random outcome and start state of one step, any prior counter')
kernel('S13', 'Systematic scan visits every site',
       'Starting from a fresh sampler state, the first ceil(sites / block) '
       'steps of Gibbs or block Gibbs include every site in the updated '
       'block, and the scan keeps cycling: from any later point, sites '
       'consecutive steps (sites/block when the block divides the lattice) '
       'again cover every site.',
       [S + 'gibbs.py', S + 'blockgibbs.py'],
       [('scan index', S + 'gibbs.py, blockgibbs.py: update_sampler_state')],
       q='every reachable scan position, lattices and block sizes listed')
kernel('S14', 'No random draw of a step is reused for another decision',
       'Within one step, every random decision uses its own random key: no key '
       'is consumed by two different draws or both split and consumed, and the '
       'draws for different chains and sites are distinct, so that proposal '
       'and acceptance decisions are independent.',
       SAMP + ['discs/common/math_util.py'],
       [('key splitting', 'discs/samplers: step of each sampler')])
kernel('S17', 'Reported acceptance is the mean acceptance probability',
       'The acceptance value a sampler returns from a step is the batch mean '
       'of the probability with which each proposed move was accepted (and 1 '
       'for the samplers without a rejection), for every target, proposal and '
       'random outcome.',
       SAMP, STEP)
kernel('S16', 'Balancing functions are balanced and weight the informed move',
       'The balancing function a locally informed sampler is configured with '
       'is the one its name says - sqrt(t), t/(t+1), max(t,1) or min(t,1) of '
       'the probability ratio t, on the linear and on the log scale alike - '
       'and satisfies g(t) = t g(1/t). The plain locally balanced sampler '
       'changes exactly one site per chain, chosen with probability '
       'proportional to the balancing function of the ratio of its move.',
       [S + 'locallybalanced.py'],
       [('apply_weight_function, step', S + 'locallybalanced.py')],
       q='every ratio, every random outcome; 2-5 sites, batch 1-2', note=KN.replace(
           'one step from an arbitrary state; ', ''))
kernel('S15', 'Shared accept, multinomial and log-scale helpers are exact',
       'The Metropolis accept step takes the proposal with probability '
       'min(1, exp(log ratio)) independently per chain and keeps or replaces '
       'the whole state. The multinomial helper draws with exactly the '
       'probabilities of its log-weights (with or without replacement, fixed '
       'or variable number of draws) and, where it reports a log-likelihood, '
       'that is the log-probability of the draw it returned. log1mexp(x) is '
       'log(1 - exp(-|x|)).',
       ['discs/common/math_util.py'],
       [('mh_step, multinomial, log1mexp', 'discs/common/math_util.py')],
       q='every log-weight and log-ratio, every random outcome; batch 1-3, '
       'up to 4 classes and 3 draws', note=KN.replace(
           'one step from an arbitrary state; ', ''))

Mo = 'discs/models/'
MW = ('No stable test compares an energy with its definition; a wrong energy '
      'still yields a working sampler that converges to the wrong law, and '
      'shows only for particular parameters, paddings or representations.')
MT = ('symbolic execution of the jaxpr of the real model functions with '
      'symbolic parameters; z3 decides equality with an independently stated '
      'formula; counterexamples replayed on the real function')
MN = ('z3 over all real parameter values for every state of the listed small '
      'shapes; real arithmetic (no float32 rounding); larger shapes are '
      'outside the bound')


def model(pid, title, statement, files, mech, q=None, note=MN):
  prop(pid, title, statement, ['inputs', 'configurations'],
       q or 'every value of the model parameters and every state; shapes, '
       'category counts and graphs listed in the evidence', MW, files, mech,
       note, observe=['value returned by the model method'], technique=MT)


model('M01', 'Factorised models have the stated energy and exact moments',
      'The Bernoulli and categorical models score a state with the sum of the '
      'selected per-site parameters, and the mean and variance they report '
      'as exact (get_expected_val, get_var) are the mean and variance of each '
      'site value under the distribution those scores define.',
      [Mo + 'bernoulli.py', Mo + 'categorical.py'],
      [('forward, get_expected_val, get_var', Mo + 'bernoulli.py, categorical.py')])
model('M02', 'Ising and Potts energies are those of the lattice',
      'The Ising and Potts models score a state with its external field plus '
      'the coupling of every pair of horizontally or vertically adjacent '
      'sites, each pair once and no pair across the border, and the '
      'parameters they initialise are the configured couplings and fields.',
      [Mo + 'ising.py', Mo + 'potts.py'],
      [('forward, make_init_params', Mo + 'ising.py, potts.py')])
model('M03', 'FHMM energy is the joint law of its generative process',
      'The factorial hidden Markov models score a hidden configuration with '
      'the log-probability of the chains (first state from the initial law, '
      'staying with probability beta, otherwise moving uniformly) plus the '
      'Gaussian log-density of the observations, up to a constant; and the '
      'hidden chains and observations they sample follow that same process.',
      [Mo + 'fhmm.py'], [('forward, sample_X, sample_Y', Mo + 'fhmm.py')])
model('M04', 'RBM free energy and block conditionals match its joint',
      'The RBM scores a visible state with the log of the sum over hidden '
      'states of the joint weight, and its block Gibbs step draws hidden '
      'units given visible ones and visible ones given hidden ones with '
      'exactly the conditional probabilities of that joint, for binary and '
      'categorical visible units.',
      [Mo + 'rbm.py'], [('forward, step_h, step_v', Mo + 'rbm.py')])
model('M05', 'The value and gradient models report are those of the energy',
      'For every model, get_value_and_grad returns for each chain the value '
      'of forward at that state and the derivative of that value with respect '
      'to that chain (the relaxed coordinates for binary models, the one-hot '
      'coordinates for categorical ones), independent of the other chains.',
      [Mo + f for f in ('abstractmodel.py', 'bernoulli.py', 'categorical.py',
                        'ising.py', 'potts.py', 'fhmm.py', 'rbm.py',
                        'maxcut.py', 'mis.py', 'maxclique.py', 'normcut.py',
                        'resnet.py')],
      [('get_value_and_grad', 'discs/models: get_value_and_grad of each model')])
model('M06', 'Energies do not depend on representation or batching',
      'For every model, the score of a state is the same whether it is given '
      'as integers, floats or (for models that accept it) one-hot vectors, '
      'and whether it is scored alone or as any row of a batch.',
      [Mo + f for f in ('bernoulli.py', 'categorical.py', 'ising.py',
                        'potts.py', 'fhmm.py', 'rbm.py', 'maxcut.py',
                        'mis.py', 'maxclique.py', 'normcut.py', 'resnet.py')],
      [('forward', 'discs/models: forward of each model')])
model('M07', 'Initial samples are valid and follow the documented law',
      'get_init_samples returns integer states of the model shape with every '
      'site a legal category: independent uniform sites by default, the '
      'product law of the data mean when the model has one, and for '
      'normalised cut an assignment that uses every category.',
      [Mo + f for f in ('bernoulli.py', 'categorical.py', 'ising.py',
                        'potts.py', 'fhmm.py', 'rbm.py', 'maxcut.py',
                        'mis.py', 'maxclique.py', 'normcut.py', 'resnet.py')],
      [('get_init_samples', 'discs/models: get_init_samples of each model')],
      q='every data mean and random outcome; shapes listed in the evidence')
model('M08', 'Neighbourhood log-ratios are exact differences of the energy',
      'For the models that provide it (Bernoulli, maxcut, independent set, '
      'normalised cut), logratio_in_neighborhood returns the score of the '
      'state and, for every site (and category), the score of the state with '
      'that site changed minus the score of the state, padded edges '
      'excluded; the move it returns changes exactly the chosen site.',
      [Mo + f for f in ('bernoulli.py', 'maxcut.py', 'mis.py', 'normcut.py')],
      [('logratio_in_neighborhood', 'discs/models: logratio_in_neighborhood')])
model('M09', 'Combinatorial models score exactly the graph problem',
      'Through the real graph loading (node order, edge padding, masks), the '
      'maxcut, independent set, clique and normalised cut models evaluate '
      'each assignment to the objective of the input graph: cut weight; set '
      'size minus penalty per violated edge (or missing edge for cliques); '
      'normalised cut cost with its balance penalty, an assignment with an '
      'empty side being strongly rejected; forward is that divided by the '
      'temperature. Padding and the insertion order of nodes and edges make '
      'no difference.',
      [Mo + f for f in ('maxcut.py', 'mis.py', 'maxclique.py', 'normcut.py',
                        'abstractmodel.py')] +
      ['discs/graph_loader/' + f for f in (
          'graph_gen.py', 'maxcut_loader.py', 'mis_loader.py',
          'maxclique_loader.py', 'normcut_loader.py', 'common.py')],
      [('objective and graph2edges', 'discs/models and discs/graph_loader')],
      q='every edge weight, temperature and assignment; graphs of 3-5 nodes '
      'with padding and insertion orders listed')
model('M10', 'Image model is base measure plus annealed network',
      'The image energy model scores a state with the log-probability of the '
      'data-mean base measure plus the network output, the network output '
      'being multiplied by the temperature when one is given (so 0 is the '
      'base measure and 1 the full model), and with the bare network when '
      'there is no data mean.',
      [Mo + 'resnet.py'], [('forward', Mo + 'resnet.py')],
      q='every data mean, temperature and network value; 1-4 pixels; the '
      'convolutional network replaced by an arbitrary quadratic function')


ET = ('eager symbolic execution of the real experiment loop (Python control '
      'flow forked, JAX operations on terms) with table-driven sampler and '
      'model; z3 on every reported number; counterexamples replayed on the '
      'unpatched experiment')
EW = ('No stable test runs an experiment. A sampled run shows plausible '
      'numbers; which step, chain, instance, device or temperature they come '
      'from can only be told for arbitrary values.')
EN = ('z3 over all values in the tables; bounded to the listed numbers of '
      'instances, chains, steps and devices; several devices are simulated by '
      'vectorisation over the device axis; real arithmetic')
X = 'discs/experiment/sampling.py'


def exper(pid, title, statement, files, mech, q, note=EN):
  prop(pid, title, statement, ['inputs', 'histories', 'configurations'], q, EW,
       files, mech, note, observe=['what the experiment hands to the saver'],
       technique=ET)


exper('E01', 'Optimisation runs report the best solution seen, per instance',
      'A combinatorial optimisation run reports, for every problem instance '
      'and every logged step, the best objective over all its chains and all '
      'logged steps so far, divided by the reference value (1 for independent '
      'set), and as the best sample an assignment that attains the best '
      'ratio. Every instance of the data is reported exactly once and in '
      'order, padding instances never, whatever the number of instances per '
      'batch, chains and devices.',
      [X, 'discs/graph_loader/common.py', 'discs/evaluators/co_eval.py',
       'discs/common/experiment_saver.py'],
      [('running best', X + ': CO_Experiment._compute_chain'),
       ('batching', 'discs/graph_loader/common.py: get_iterator')],
      'every objective value of every chain at every step and every reference '
      'value; 1-5 instances, 1-4 per batch, 1-4 chains, 2-5 steps, 1-4 devices')
exper('E02', 'Annealing runs follow the configured temperature schedule',
      'At step s of an annealing run of T steps every chain of every instance '
      'samples at the configured temperature: the initial one (constant), the '
      'linear interpolation that reaches the final one at step T (linear), or '
      'the initial one times rate^(s/T) but not below the final one '
      '(exp_decay). The reported objective does not depend on the temperature.',
      [X], [('schedule', X + ': CO_Experiment._build_temperature_schedule')],
      'every initial and final temperature, every decay rate below 1; 3-8 '
      'steps, burn-in shares 0 to 1, 1-3 instances, 1-2 devices')
exper('E03', 'Sampling runs report the chains that were run',
      'A sampling run of L steps computes the effective sample size from the '
      'distance to the reference state of every chain at every step after the '
      'burn-in, in order and unmixed; it reports its mean and deviation over '
      'chains, and the same per kept step, per second and per kept energy '
      'evaluation. Acceptance and hop metrics are the averages over chains of '
      'every step; saved samples are the states of fixed distinct chains at '
      'every save step. All of this for one or several devices.',
      [X, 'discs/evaluators/ess_eval.py', 'discs/common/experiment_saver.py'],
      [('chain bookkeeping', X + ': Sampling_Experiment._compute_chain'),
       ('rates', 'discs/evaluators/ess_eval.py: get_eval_metrics')],
      'every chain history (symbolic start states and moves), reference state '
      'and estimator weights; 3-7 steps, 2-4 chains, 1-2 devices',
      note=EN + '; the TFP estimator is replaced by an arbitrary linear '
      'function of each chain')
exper('E04', 'Annealed importance sampling reports its defined log Z estimate',
      'The image-model experiment reports after step k of T the log of the '
      'mean over chains of exp(sum over j<=k of the change of the score at '
      'the state before step j when the temperature goes from (j-1)/T to '
      'j/T), and takes step k at temperature k/T. One or several devices make '
      'no difference.',
      [X], [('importance weights', X + ': EBM_Experiment._compute_chain')],
      'every chain history and every score quadratic in the temperature; 1-4 '
      'steps, 1-4 chains, 1-2 devices')
exper('E05', 'Text infilling runs report every resample and the best of them',
      'A text infilling run reports, for every sentence of the data in order, '
      'each of its num_same_resample infillings exactly once, verbatim and '
      'taken from the last step of its own chain, with different randomness '
      'for different resamples and sentences; with use_topk it also reports '
      'for each sentence topk_num infillings such that none left out has a '
      'higher score. The evaluator receives exactly these sentences and the '
      'data root.',
      [X, 'discs/evaluators/lm_eval.py'],
      [('resampling and ranking', X + ': Text_Infilling_Experiment')],
      'every score table (symbolic) for up to 4 resamples; 1-3 sentences and '
      'up to 25 resamples with fixed scores; 1-4 steps')
model('M11', 'Text infilling scores masked pseudo-likelihood and keeps context',
      'The text infilling model scores an assignment of the blanks with the '
      'sum, over the blanks, of the log-probability the language model gives '
      'the chosen token when that blank alone is masked and the other blanks '
      'hold their chosen tokens; context tokens are never changed, decoding '
      'places each chosen token at its own blank, and initial samples are '
      'tokens drawn uniformly, or from the fully masked predictions.',
      [Mo + 'text_infilling.py'], [('forward', Mo + 'text_infilling.py')],
      q='every network whose logits are bilinear in token weights and context '
      '(symbolic weights, a few tokens with free effect); 1-3 blanks')
exper('E06', 'Evaluators report the statistics they are named after',
      'The Bernoulli evaluator reports the average and largest squared error, '
      'over chains and sites, of the chain means and unbiased variances '
      'against the exact moments of the model, and the average for the last '
      'states of all chains pooled. The language evaluator reports 4-gram '
      'BLEU of all infillings against the TBC, the wiki and both references '
      '(lower-cased, special tokens replaced) and of each infilling against '
      'all others, and for every n the share of n-grams that are distinct and '
      'absent from each reference, and that occur once. The partition '
      'evaluator reports the share of edges cut and the normalised sum of '
      'products of sizes of different groups.',
      ['discs/evaluators/bernoulli_eval.py', 'discs/evaluators/lm_eval.py',
       'discs/common/normcut_evaluator.py'],
      [('evaluate', 'discs/evaluators/bernoulli_eval.py, lm_eval.py and '
        'discs/common/normcut_evaluator.py: evaluate')],
      'every sample and parameter value (2-4 steps, 2-3 chains, 1-2 sites); '
      'every choice of 1-4 arbitrary words among short sentences, n up to 4; '
      'every partition and one or two arbitrary edges of graphs of 3-4 nodes',
      note=EN + '; the BLEU computation of nltk is replaced by a recorder')
exper('E07', 'A run never reuses randomness',
      'Within one optimisation, sampling, annealed importance sampling, text '
      'infilling or training run, every random draw (initial parameters and '
      'samples, sampler state, every step of every instance and device, '
      'every resample and every training round) is made with a key derived '
      'from the seed in its own way: no two draws share a key.',
      [X, 'discs/common/utils.py', 'discs/learning/train.py',
       'discs/learning/rbm/main_rbm_training.py',
       'discs/learning/binary_ebm/main_binary_training.py'],
      [('keys', X + ': _compute_chain of each experiment'),
       ('keys', 'discs/learning/train.py: Trainer.train_loop')],
      'symbolic keys with free split/fold_in; 2-5 steps, 1-4 instances, 1-2 '
      'devices, 1-4 resamples, 2-3 training rounds',
      note='z3 datatype theory over the key derivations of the whole run: '
      'split and fold_in are free constructors; bounded to the listed run '
      'shapes; a batch of instances of an optimisation run counts as a run')

exper('E08', 'Files of a run hold its results and its configuration',
      'results.csv holds one row with the sampler name (prefixed a_ exactly '
      'when the run is adaptive, suffixed with solver and balancing '
      'function), the model, its shape, the run settings and each measure '
      'under its own name. results, logz, samples and params files hold '
      'exactly the values handed over, in order, the mean of the best ratios, '
      'and best samples or top-k results exactly when there are any.',
      ['discs/common/experiment_saver.py'],
      [('saver', 'discs/common/experiment_saver.py: Saver')],
      'every value; every combination of present/absent sampler options; 1-2 '
      'instances (thorough 8), 2-3 (6) steps',
      note=EN + '; files are real scratch files, symbolic values pass through '
      'pickle and text by reference')

TW = ('No test runs training. Whether the update is the stated gradient, '
      'averaged over every device and example, and which chain or buffer '
      'entry a negative continues, only shows for arbitrary values.')


def learn(pid, title, statement, files, mech, q, note):
  prop(pid, title, statement, ['inputs', 'histories', 'configurations'], q, TW,
       files, mech, note, observe=['training state after an update'],
       technique='symbolic execution of the real trainer (jaxpr or statement '
       'by statement) with a model of arbitrary parameters; z3 on every '
       'component of the new state; counterexamples replayed on the trainer')


learn('L01', 'A training update is the contrastive gradient, averaged',
      'One update moves the parameters by the optimiser step for the gradient '
      'of mean score of negatives minus mean score of positives, averaged '
      'over the examples of all devices (clipped by its global norm and with '
      'decoupled weight decay when configured), keeps all devices equal, '
      'advances the step, and sets the averaged parameters to the new ones '
      'at step 0 and to decay*old + (1-decay)*new later. The learning rate '
      'is constant, or rises linearly to its value and falls linearly to '
      '1% of it.',
      ['discs/learning/train.py', 'discs/common/utils.py',
       'discs/learning/rbm/main_rbm_training.py',
       'discs/learning/binary_ebm/main_binary_training.py'],
      [('update', 'discs/learning/train.py: Trainer.global_update_fn, '
        'build_optimizer, build_lr_schedule')],
      'every parameter, average, example, learning rate, decay and weight '
      'decay; 1-2 sites, 1-2 examples, 1-2 devices, 1-2 updates; schedules of '
      '4-8 steps',
      'z3 over all values; devices by vectorisation; Adam\'s moment '
      'normalisation replaced by the plain gradient (optax is trusted); real '
      'arithmetic')
learn('L02', 'Persistent chains continue where they stopped',
      'The negatives of a training round are the persistent chains after '
      'exactly pcd_steps sampler steps with the current parameters, chain by '
      'chain and device by device, with the sampler state carried over; the '
      'positives are the data of the round. In image training the chains '
      'start from distinct replay buffer entries (or, with probability '
      'reinit_freq each, afresh from the smoothed data mean) and their final '
      'states replace exactly those entries.',
      ['discs/learning/replay_buffer.py',
       'discs/learning/rbm/main_rbm_training.py',
       'discs/learning/binary_ebm/main_binary_training.py'],
      [('chains', 'batch_processing of both trainers'),
       ('buffer', 'discs/learning/replay_buffer.py: ReplayBuffer')],
      'every chain, buffer, parameter and coin flip; 1-2 sites, 1-2 chains, '
      '1-2 devices, 1-3 steps, 1-3 rounds, buffers of 3-6 entries',
      'z3 over all values; the sampler is an affine map that reveals '
      'parameters, state and order; numpy.random replaced by symbols and '
      'listed choices')

DW = ('The stable tests load no data file and use one process. Which instance '
      'a process gets, and what padding it sees, depends on counts the tests '
      'never vary.')


def data(pid, title, statement, files, mech, q, note):
  prop(pid, title, statement, ['inputs', 'configurations'], q, DW, files, mech,
       note, observe=['batches and graphs a loader yields', 'written files'],
       technique='symbolic execution, statement by statement, of the real '
       'loader code with symbolic counts, weights, reference values, literals '
       'and random choices (structure is forked with z3 over its values); z3 '
       'on every reported quantity; counterexamples replayed on the loader')


G = 'discs/graph_loader/'
data('D01', 'Every instance is handed out exactly once over all processes',
     'With P processes and B instances per batch each process gets '
     'ceil(N/B) batches of exactly B/P instances; over all processes every '
     'one of the N instances occurs exactly once, in order within a process, '
     'with its own index, parameters and reference value; all other entries '
     'are padding with index -1. Splitting samples over devices and stacking '
     'states keep every entry in its place.',
     [G + 'common.py', 'discs/common/utils.py'],
     [('sharded batches', G + 'common.py: GraphGenerator.get_iterator'),
      ('splitting', 'discs/common/utils.py: shard_to_local_devices, tree_stack')],
     'every N up to 7 (thorough 14), every local batch size up to 7, 1-3 (4) '
     'processes, every reference value',
     'symbolic N, batch size and references; jax.process_index/count replaced')
data('D02', 'Loaders deliver the graphs and references of the data files',
     'Every graph loader yields, in the order of the sorted file names and of '
     'the entries within a file, each stored graph exactly once per pass, '
     'with its nodes, edges and weights unchanged and with the stored '
     'reference value (ER test graphs: the number of labelled nodes, 1 when '
     'there are none; sets without references: 1); files of other names are '
     'ignored. The reported maximal numbers of nodes and edges and the number '
     'of instances are the configured ones when all are positive, otherwise '
     'those of the data. Padding graphs fit these limits.',
     [G + 'graph_gen.py', G + 'mis_loader.py', G + 'maxcut_loader.py',
      G + 'maxclique_loader.py', G + 'normcut_loader.py'],
     [('loaders', G + 'graph_gen.py: get_graphs')],
     'every weight and reference value, every presence of 2-5 edges, every '
     'labelling; 1-3 files of 1-2 graphs of 2-5 nodes, all ten data sets',
     'files are real scratch files; symbolic values pass through pickle; '
     'presence of edges forked')
data('D03', 'SAT instances become their exact conflict graph',
     'The graph of a 3-CNF formula has one node per literal occurrence of a '
     'non-empty clause, numbered clause by clause, and an edge between two '
     'occurrences exactly when they are in the same clause or complementary; '
     'so it has an independent set of one node per clause exactly when the '
     'formula is satisfiable.',
     [G + 'mis_loader.py'],
     [('reduction', G + 'mis_loader.py: SatLibGraphGen.cnf2graph')],
     'every choice of 3 arbitrary literals (thorough: 6) in formulas of 1-4 '
     'clauses over 2-4 variables',
     'the literals are forked with z3 over all their values; DIMACS files are '
     'read by the real pysat')
data('D04', 'The infilling task masks interior words and keeps references apart',
     'Building the text infilling data takes the first eligible sentences '
     '(word count between the limits) of each shuffled corpus, replaces '
     'exactly the configured number of interior words by the mask, stores the '
     'unmasked sentence, and records the token position of every mask '
     'counting the leading special token, whatever pieces the tokenizer '
     'splits words into. Used lines are removed from the reference file of '
     'their corpus, every other line stays in it unchanged.',
     ['discs/common/utils.py'],
     [('task', 'discs/common/utils.py: create_infill_dataset')],
     'every sentence length around the limits, every shuffle of 3 lines, '
     'every choice of 1-3 masks, every split of words into 1-2 tokens; 1-3 '
     'lines per corpus',
     'numpy.random and the tokenizer are replaced by symbolic choices, forked '
     'with z3')


def not_applicable(pid, title, statement, over, q, why, files, mech, reason):
  NA.append((dict(
      id=pid, title=title, statement=statement,
      quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b)
                                           for a, b in mech])), reason))


not_applicable(
    'N01', 'Effective sample size is the autocorrelation estimate of the chain',
    'The effective sample size reported for a chain is the number of steps '
    'divided by the integrated autocorrelation time, with the truncation '
    'documented by TensorFlow Probability.', ['inputs'],
    'every chain', 'Needs every chain.', ['discs/evaluators/ess_eval.py'],
    [('estimator', 'discs/evaluators/ess_eval.py: _get_ess')],
    'The estimate is computed inside TensorFlow Probability with FFTs over '
    'complex numbers; that library is not code of this repository and its FFT '
    'has no encoding within reach. E03 checks everything the repository does '
    'around the call.')
not_applicable(
    'N02', 'Float32 results agree with exact arithmetic',
    'Acceptance ratios, energies and log-weights computed in float32 differ '
    'from their exact values by no more than rounding error that does not '
    'change the sampled law noticeably, also for large systems.', ['inputs'],
    'every input within float32 range',
    'Needs every magnitude.', ['discs/samplers', 'discs/models'],
    [('energies', 'discs/models: forward')],
    'exp, log and long sums in float32 have no decidable theory in the '
    'installed solvers; bit-blasting one step of the smallest sampler is far '
    'out of reach. All claims are over real arithmetic.')
not_applicable(
    'N03', 'Trained networks compute the published architectures',
    'The residual network and the BERT encoder compute the published '
    'architecture for their weights.', ['inputs'], 'every weight and input',
    'Needs every weight.', ['discs/models/resnet.py',
                            'discs/common/customized_huggingface_flax_bert.py'],
    [('networks', 'discs/models/resnet.py, '
      'discs/common/customized_huggingface_flax_bert.py')],
    'The published networks are the only oracle and are given as the same '
    'code; convolution, attention, GELU and layer normalisation over symbolic '
    'weights exceed the solver. M10 and M11 treat them as arbitrary functions.')
not_applicable(
    'N04', 'Adaptive samplers converge to the target acceptance rate',
    'With adaptation on, the acceptance rate approaches the target rate and '
    'the chains mix within the configured number of steps.',
    ['histories'], 'every target and history',
    'Is a limit statement.', ['discs/samplers'],
    [('adaptation', 'discs/samplers: adaptive step size of each sampler')],
    'A limit over unboundedly many random steps: no bound makes it a solver '
    'query. S11 decides the direction and the range of every single update.')
