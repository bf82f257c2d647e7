"""Single source of properties.jsonl and MANIFEST.json (run me to regenerate)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


prop('P01', 'N-step replay buffer holds exactly the right n-step windows',
     'After any history of transitions from any number of environments, with episodes ended by terminal transitions or interruptions, the replay buffer holds exactly the n-step windows that start at each transition of each episode (shorter at the end of the episode), in completion order, never mixing episodes or environments and never duplicating or losing one. With a capacity, exactly the most recent windows remain. Sampling returns distinct stored windows and the reported size equals their number.',
     ['histories', 'configurations', 'inputs'],
     'all interleavings of appends (terminal or not), episode interruptions and samples over several environments, all n >= 1, all capacities',
     'The tests run a few fixed episode lengths for one or two environments and check sizes more than contents.',
     ['chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/misc/collections.py'],
     [('window assembly per environment', 'chainerrl/replay_buffers/replay_buffer.py:ReplayBuffer.append'),
      ('flush on interruption', 'chainerrl/replay_buffers/replay_buffer.py:ReplayBuffer.stop_current_episode'),
      ('FIFO eviction', 'chainerrl/misc/collections.py:RandomAccessQueue')],
     'model-based property testing: generated histories against a list model',
     'Bounded random histories (up to 60 operations, 3 environments, n<=5, capacity<=12); full content comparison by draining the buffer with sample(len).')

prop('P02', 'Episodic replay buffer stores and samples whole finished episodes',
     'After any history over any number of environments, an episodic replay buffer exposes exactly the finished episodes (ended by a terminal transition or an interruption) and their transitions, in completion order; unfinished episodes are invisible and environments never mix. With a capacity, whole episodes are dropped oldest first until the number of transitions fits. Sampled episodes are distinct stored episodes, and with a maximum length each is a contiguous subsequence of exactly the smaller of that length and the episode length, every start being possible.',
     ['histories', 'configurations', 'inputs'],
     'all interleavings of appends, interruptions, transition samples and (sub)episode samples, all capacities and maximum lengths',
     'Tests use one or two fixed episodes and only look at a few samples.',
     ['chainerrl/replay_buffers/episodic.py', 'chainerrl/replay_buffer.py', 'chainerrl/misc/collections.py'],
     [('episode assembly and eviction', 'chainerrl/replay_buffers/episodic.py:EpisodicReplayBuffer.stop_current_episode'),
      ('sub-episode selection', 'chainerrl/replay_buffer.py:random_subseq')],
     'model-based property testing: generated histories against a list-of-episodes model',
     'Bounded random histories (up to 60 operations, 3 environments); contents compared through sampling and sizes.')

prop('P03', 'Prioritized replay samples and weights follow the priorities',
     'For any history of appends, samples and error feedback, prioritized replay draws each stored experience with probability proportional to its priority (clipped error plus epsilon, to the power alpha; an experience that got no feedback yet has the largest priority assigned so far, at least one), without replacement within a batch. The returned importance weights are the documented function of those probabilities, of beta and of the chosen normalisation, and beta rises linearly from its start to one and stays there. Contents obey the same window and capacity rules as plain replay.',
     ['histories', 'configurations', 'inputs'],
     'all histories of append / sample / priority update with eviction, all alpha, beta, eps, clipping bounds, step counts and normalisations',
     'Tests check convergence of sampled frequencies for one hand-made priority assignment; eviction interleaved with updates and the weight formulae are not compared with anything.',
     ['chainerrl/replay_buffers/prioritized.py', 'chainerrl/misc/prioritized.py'],
     [('sum and min trees', 'chainerrl/misc/prioritized.py:TreeQueue'),
      ('sampling and priority write-back', 'chainerrl/misc/prioritized.py:PrioritizedBuffer'),
      ('priorities, weights and beta schedule', 'chainerrl/replay_buffers/prioritized.py:PriorityWeightError')],
     'model-based property testing against a flat priority list (exact weights), chi-square tests of the draws',
     'Weights, and through them the probabilities, are compared exactly after every sample; frequencies are tested at a false-alarm probability below 1e-9; bounded histories.')

prop('P04', 'Prioritized episodic replay respects capacity, priorities and weights',
     'A prioritized episodic buffer keeps exactly the most recent finished episodes whose total length fits its capacity, draws distinct episodes with probabilities mixing uniform and priority-proportional choice in the configured ratio, and returns importance weights computed from those probabilities. Error feedback changes the priority of exactly the episodes of the last sample.',
     ['histories', 'configurations', 'inputs'],
     'all histories of appends, interruptions, episode samples and feedback; all uniform ratios, capacities, default priority functions, alpha/beta/eps',
     'Tests only exercise one fixed configuration with statistically loose bounds.',
     ['chainerrl/replay_buffers/prioritized_episodic.py', 'chainerrl/misc/prioritized.py'],
     [('eviction accounting', 'chainerrl/replay_buffers/prioritized_episodic.py:PrioritizedEpisodicReplayBuffer.stop_current_episode'),
      ('mixed sampling', 'chainerrl/misc/prioritized.py:PrioritizedBuffer.sample')],
     'model-based property testing: generated histories against a list-of-episodes and priority model',
     'Bounded random histories; probabilities recovered exactly from returned weights.')

prop('P05', 'Saved replay buffers load back to the same content and behaviour',
     'Saving any replay buffer after any history and loading it into a fresh buffer of the same configuration restores the same stored experiences, sizes, episodes and priorities; afterwards both buffers react identically to the same further appends and samples, including eviction at capacity.',
     ['histories', 'crash_points', 'configurations'],
     'every buffer class and configuration, a save at any point of any history, any continuation',
     'Tests save and load one small buffer and compare a few samples; nothing is done with the loaded buffer afterwards.',
     ['chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/replay_buffers/episodic.py', 'chainerrl/replay_buffers/prioritized.py', 'chainerrl/replay_buffers/prioritized_episodic.py'],
     [('pickled content', 'chainerrl/replay_buffers/replay_buffer.py:ReplayBuffer.save'),
      ('pickled episodes', 'chainerrl/replay_buffers/episodic.py:EpisodicReplayBuffer.load')],
     'round-trip plus differential continuation: original and reloaded buffer driven by the same generated suffix and random stream',
     'Save is taken between operations with no episode in progress kept (in-progress episodes are not part of the saved content).')

prop('P06', 'Random-access queue behaves like a bounded list; sampling is uniform',
     'Under any sequence of operations the random-access queue shows exactly the items of a list with the same operations applied, keeping only the newest items when bounded, for every valid positive or negative index, and rejects invalid ones. Sampling k of n yields k distinct in-range positions, for every n and k, each position being equally likely.',
     ['histories', 'inputs'],
     'all operation sequences (append, extend, pop, index read and write, length, iteration, sample), all bounds, all 0 <= k <= n',
     'Tests use fixed sizes and a handful of operations.',
     ['chainerrl/misc/collections.py', 'chainerrl/misc/random.py'],
     [('two-stack queue', 'chainerrl/misc/collections.py:RandomAccessQueue'),
      ('sampling without replacement', 'chainerrl/misc/random.py:sample_n_k')],
     'stateful property testing against a Python list; uniformity by a bounded-error frequency test',
     'Uniformity thresholds are set at a false-alarm probability below 1e-9.')

prop('P07', 'Training batches carry the exact n-step return, discount and states',
     'For any list of experiences, the batch built for training has, per experience, the first state and action, the discounted sum of its rewards, the discount for its length, the last next state (and next action when known), and is marked terminal exactly if its final step is terminal. Recurrent batches flatten episodes in order with per-step rewards and the initial recurrent states. The feature extractor is applied exactly once to each observation.',
     ['inputs', 'configurations'],
     'all experience lengths, rewards, discounts, observation structures and feature extractors',
     'Tests use one hand-built batch.',
     ['chainerrl/replay_buffer.py', 'chainerrl/misc/batch_states.py'],
     [('vectorisation', 'chainerrl/replay_buffer.py:batch_experiences'),
      ('recurrent vectorisation', 'chainerrl/replay_buffer.py:batch_recurrent_experiences'),
      ('observation stacking', 'chainerrl/misc/batch_states.py:batch_states')],
     'property testing against a per-element NumPy reference',
     'float32 tolerance 1e-4 relative.')

prop('P08', 'Off-policy agents update and sync exactly on their documented schedule',
     'For any run, a replay-based agent updates its model exactly at the steps that are multiples of the update interval once the buffer holds at least the start size, the configured number of times with the configured batch size, and never otherwise. Target networks change exactly at their sync interval (hard copies make them equal, soft ones interpolate by tau) and are constant in between. Exploration is driven by the agent\'s own step count, and burn-in actions are used exactly until the first update. Asynchronous n-step Q-learning updates after every full rollout and episode, and explores and synchronises its target by the step count of all workers together.',
     ['histories', 'configurations'],
     'all environment histories (episode lengths, terminal or interrupted), intervals, start sizes, repeat counts, serial and batch driving',
     'Tests train to a score on one toy problem with one setting; the schedule itself is never observed.',
     ['chainerrl/replay_buffer.py', 'chainerrl/agents/dqn.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py', 'chainerrl/agents/pgt.py', 'chainerrl/agents/nsq.py', 'chainerrl/misc/copy_param.py'],
     [('update schedule', 'chainerrl/replay_buffer.py:ReplayUpdater.update_if_necessary'),
      ('target sync', 'chainerrl/agents/dqn.py:DQN.sync_target_network')],
     'property testing of generated runs: updates counted through an instrumented optimizer and buffer, compared with a schedule model',
     'Small linear models; counting by wrappers passed through the public constructor arguments.')

prop('P09', 'Every transition an off-policy agent experiences is recorded faithfully',
     'For any interaction history (serial or batched, terminal, interrupted, or evaluation calls in between), the replay buffer of an off-policy agent receives exactly one transition per environment step, linking the observation acted on, the action returned, the reward and the observation that followed, flagged terminal exactly when the environment ended. Transitions never span a reset, an episode boundary or two environments, and acting without training records nothing.',
     ['histories', 'configurations'],
     'all histories of act / observe / stop calls for every off-policy agent, any number of parallel environments, any done/reset pattern',
     'Agent tests only check that training eventually succeeds on a toy chain environment.',
     ['chainerrl/agents/dqn.py', 'chainerrl/agents/ddpg.py', 'chainerrl/agents/pgt.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py', 'chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py'],
     [('serial recording', 'chainerrl/agents/dqn.py:DQN.act_and_train'),
      ('batched recording', 'chainerrl/agents/dqn.py:DQN.batch_observe_and_train'),
      ('end of episode', 'chainerrl/agents/dqn.py:DQN.stop_episode_and_train')],
     'property testing: scripted environments with unique observations, recorded buffer traffic compared with the history',
     'Buffer traffic observed at the public append/stop interface of the buffer handed to the agent.')

prop('P10', 'Q-learning updates follow the documented Bellman targets',
     'For any batch, the value-based agents (DQN, Double DQN, SARSA, advantage learning variants, dynamic policy programming, residual DQN) take gradients of exactly the loss defined by their algorithm: no bootstrapping past terminal transitions, the n-step discount, target network for targets only, error clipping, mean or sum accumulation, and importance weights when replay is prioritized. The errors fed back to prioritized replay are the absolute temporal-difference errors of the sampled experiences in order.',
     ['inputs', 'configurations'],
     'all batches, network parameters, discounts, terminal patterns, loss options and agents of the family, discrete action sets of any size',
     'Tests check a few loss values with mocked outputs for plain DQN only; subclasses are only trained to a score.',
     ['chainerrl/agents/dqn.py', 'chainerrl/agents/double_dqn.py', 'chainerrl/agents/al.py', 'chainerrl/agents/pal.py', 'chainerrl/agents/double_pal.py', 'chainerrl/agents/dpp.py', 'chainerrl/agents/sarsa.py', 'chainerrl/agents/residual_dqn.py'],
     [('loss', 'chainerrl/agents/dqn.py:compute_value_loss'),
      ('weighted loss', 'chainerrl/agents/dqn.py:compute_weighted_value_loss'),
      ('double targets', 'chainerrl/agents/double_dqn.py:DoubleDQN')],
     'differential testing against an independent NumPy reference with hand-derived gradients on tabular models',
     'Gradient captured at the optimizer of a tabular (embedding) Q-function; float32 tolerance.')

prop('P11', 'Distributional targets preserve mass and follow their definitions',
     'For any atoms, rewards, discounts and terminal flags, projecting a shifted and scaled return distribution onto the support gives a probability distribution that preserves mass always and preserves the mean whenever the shifted atoms stay inside the support. Categorical DQN and its double variant minimise the cross entropy to that projection of the target action\'s distribution; implicit quantile agents minimise the asymmetric quantile Huber loss over all quantile pairs, with the terminal cut-off. Action values of distributional models are the expectations of the returned distributions.',
     ['inputs', 'configurations'],
     'all supports (including ones where targets fall exactly on atoms or outside), batches, weights, quantile draws',
     'Tests use a handful of hand-computed projections.',
     ['chainerrl/agents/categorical_dqn.py', 'chainerrl/agents/categorical_double_dqn.py', 'chainerrl/agents/iqn.py', 'chainerrl/agents/double_iqn.py'],
     [('projection', 'chainerrl/agents/categorical_dqn.py:_apply_categorical_projection'),
      ('quantile huber loss', 'chainerrl/agents/iqn.py:compute_eltwise_huber_quantile_loss')],
     'metamorphic (mass, mean) and differential testing against a loop-based reference projection and loss',
     'float32 tolerance; projections compared at 1e-4.')

prop('P12', 'Continuous-control updates follow their actor and critic objectives',
     'For any batch, DDPG, TD3, soft actor-critic and policy-gradient-theorem agents take exactly the critic and actor (and temperature) gradients of their published objectives: target networks and the smaller of two critics where applicable, no bootstrapping past terminal transitions, smoothing noise within its bounds, delayed policy updates, and soft target tracking. Actor updates never change critic parameters and vice versa.',
     ['inputs', 'configurations', 'histories'],
     'all batches, parameters, discounts, terminal patterns, delays, taus and temperatures',
     'Tests only train to a score or check that nothing crashes.',
     ['chainerrl/agents/ddpg.py', 'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py', 'chainerrl/agents/pgt.py'],
     [('critic loss', 'chainerrl/agents/ddpg.py:DDPG.compute_critic_loss'),
      ('twin critics', 'chainerrl/agents/td3.py:TD3.update_q_func'),
      ('entropy regularised targets', 'chainerrl/agents/soft_actor_critic.py:SoftActorCritic.update_q_func')],
     'differential testing: one agent update from a generated batch against a NumPy reference step on linear models',
     'Linear critics and policies with SGD so the whole update can be recomputed by hand; float32 tolerance.')

prop('P13', 'Advantages and value targets equal generalised advantage estimation',
     'For any set of finished or truncated episodes, PPO and TRPO train on advantages and value targets equal to the lambda-weighted sums of temporal-difference errors, cut at terminal states and bootstrapped at truncation, computed once per batch with the pre-update model; each collected step is used exactly once per epoch. PPO minimises the clipped surrogate, the (optionally clipped) value error and the entropy bonus with the configured coefficients, and A2C uses its own discounted or lambda returns with episode ends masked.',
     ['histories', 'inputs', 'configurations'],
     'all episode-length and termination patterns, serial or batched, rewards, gammas, lambdas, update intervals, minibatch sizes, coefficients',
     'Tests compare one hand-made episode and otherwise only train to a score.',
     ['chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py', 'chainerrl/agents/a2c.py'],
     [('advantage computation', 'chainerrl/agents/ppo.py:_add_advantage_and_value_target_to_episode'),
      ('surrogate loss', 'chainerrl/agents/ppo.py:PPO._lossfun'),
      ('A2C returns', 'chainerrl/agents/a2c.py:A2C._compute_returns')],
     'differential testing: agents driven through generated histories, gradients captured at the optimizer and compared with an independent reference',
     'Linear models with plain SGD; the reference recomputes the whole update in NumPy.')

prop('P14', 'Trust-region policy updates never leave the trust region or get worse',
     'After any policy update of the trust-region agent, the mean KL divergence from the old to the new policy on the data is at most the configured bound and the surrogate objective is not lower than before, or else the policy is exactly unchanged; the step is the natural-gradient step, halved only as often as these conditions need within the configured number of trials. The conjugate gradient solver solves every symmetric positive definite system it is given to within its tolerance.',
     ['inputs', 'configurations'],
     'all datasets, policies (categorical and Gaussian, feed-forward or recurrent), bounds, damping, backtracking limits; all SPD systems',
     'One CG example and training to a score; the constraint is never checked.',
     ['chainerrl/agents/trpo.py', 'chainerrl/misc/conjugate_gradient.py'],
     [('line search', 'chainerrl/agents/trpo.py:TRPO._line_search'),
      ('natural gradient step', 'chainerrl/agents/trpo.py:TRPO._compute_kl_constrained_step'),
      ('CG', 'chainerrl/misc/conjugate_gradient.py:conjugate_gradient')],
     'property testing: policy before and after each update of a generated run compared on the data by an independent KL and surrogate',
     'Tolerance 1e-4 relative for float32.')

prop('P15', 'On-policy multi-step learners take the gradient of their objectives',
     'For any episode history, REINFORCE, A3C and n-step Q-learning take exactly the gradient of their objective: undiscounted-to-go or discounted multi-step returns bootstrapped only at non-terminal cut points, entropy and value coefficients as configured, averaged over the configured batch; and every collected step contributes exactly once. Episodes cut without termination are bootstrapped, or discarded where the method requires complete episodes.',
     ['histories', 'configurations'],
     'all episode lengths and cut points relative to the update length, rewards, discounts and coefficients, feed-forward and recurrent models',
     'Tests train to a score; gradients are compared only for two REINFORCE batching modes.',
     ['chainerrl/agents/a3c.py', 'chainerrl/agents/nsq.py', 'chainerrl/agents/reinforce.py'],
     [('A3C update', 'chainerrl/agents/a3c.py:A3C.update'),
      ('n-step Q update', 'chainerrl/agents/nsq.py:NSQ.update'),
      ('REINFORCE', 'chainerrl/agents/reinforce.py:REINFORCE.accumulate_grad')],
     'differential testing: gradients captured at the optimizer along generated histories, compared with a NumPy reference',
     'Linear softmax models; float32 tolerance.')

prop('P16', 'ACER and PCL losses equal their off-policy definitions',
     'For any trajectory, ACER computes Retrace targets with importance weights truncated at one, the truncated policy gradient with bias correction, and projects it so that the linearised KL to the average policy respects the bound; path consistency learning penalises exactly the squared soft-consistency error of every sub-trajectory up to the rollout length, for policy and value separately. With identical behaviour and target policies the off-policy estimates reduce to the on-policy ones.',
     ['histories', 'inputs', 'configurations'],
     'all trajectories, behaviour policies, thresholds, rollout lengths, discounts and coefficients',
     'Tests check the bias-correction functions on a few seeds; full losses are never compared.',
     ['chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py'],
     [('Retrace loss', 'chainerrl/agents/acer.py:ACER.compute_loss'),
      ('KL projection', 'chainerrl/agents/acer.py:compute_loss_with_kl_constraint'),
      ('path consistency', 'chainerrl/agents/pcl.py:PCL.compute_loss')],
     'differential testing against a NumPy reference and the on-policy/off-policy metamorphic relation',
     'Small discrete and Gaussian models; float32 tolerance.')

prop('P17', 'Action-value objects agree with the function they represent',
     'For any values, the greedy action attains the reported maximum, which is not less than the value of any admissible action; evaluating actions returns their values; advantages are value minus maximum; slicing a batch commutes with all of these. This holds for discrete, distributional, quantile, quadratic and single-evaluator action values, with and without action bounds.',
     ['inputs', 'configurations'],
     'all value arrays, action counts, batch sizes, quadratic parameters, action bounds, slices',
     'Tests use one random array per class.',
     ['chainerrl/action_value.py'],
     [('discrete', 'chainerrl/action_value.py:DiscreteActionValue'),
      ('quadratic', 'chainerrl/action_value.py:QuadraticActionValue')],
     'property testing against brute-force maximisation and metamorphic slicing laws',
     'For bounded quadratic values optimality is only asserted for diagonal curvature or interior optima (the code documents clipping).')

prop('P18', 'Action distributions are mutually consistent probability distributions',
     'For any parameters, probabilities, log-probabilities, entropy, KL divergence, mode and samples of an action distribution are those of one and the same mathematical distribution: probabilities sum to one, the log matches, samples lie in the support with the stated frequencies, KL is non-negative and zero for equal distributions, and joint sampling with log-probability agrees with evaluating it. Temperature, probability floor and squashing parameters act as documented, and copying detaches without changing anything.',
     ['inputs', 'configurations'],
     'all logits, means, variances, temperatures, floors, batch shapes',
     'Tests check shapes and a few identities for small random batches.',
     ['chainerrl/distribution.py'],
     [('softmax', 'chainerrl/distribution.py:SoftmaxDistribution'),
      ('mellowmax', 'chainerrl/distribution.py:MellowmaxDistribution'),
      ('gaussian', 'chainerrl/distribution.py:GaussianDistribution'),
      ('squashed gaussian', 'chainerrl/distribution.py:SquashedGaussianDistribution')],
     'property testing against SciPy/NumPy references and metamorphic laws',
     'Frequencies tested with thresholds at false-alarm probability below 1e-9; float32 tolerance elsewhere.')

prop('P19', 'Custom differentiable functions have correct values and gradients',
     'For every input in its domain each custom differentiable function returns its mathematical definition and its backward pass equals the true derivative (or the documented modified gradient: inverting gradients shrinks or flips steps that would leave the bounds, gradient scaling multiplies by its factor). Mellowmax lies between mean and max and its maximum-entropy policy has the mellowmax value as mean.',
     ['inputs', 'configurations'],
     'all array shapes and values in the domain, all function parameters',
     'Tests check gradients at one random point per shape; the parameter omega is never varied against a reference.',
     ['chainerrl/functions/mellowmax.py', 'chainerrl/functions/arctanh.py', 'chainerrl/functions/bound_by_tanh.py', 'chainerrl/functions/invert_gradients.py', 'chainerrl/functions/lower_triangular_matrix.py', 'chainerrl/functions/mul_add.py', 'chainerrl/functions/sum_arrays.py', 'chainerrl/functions/weighted_sum_arrays.py', 'chainerrl/functions/scale_grad.py'],
     [('forward/backward pairs', 'chainerrl/functions')],
     'property testing against NumPy float64 references and central differences',
     'Inputs kept away from non-differentiable points by construction.')

prop('P20', 'Explorers follow their schedules and act within bounds',
     'At any step, epsilon-greedy explorers explore exactly when the drawn number is below the documented schedule value, which is monotone, starts and ends at its configured values and stays there; otherwise they return the greedy action untouched. Boltzmann exploration samples proportionally to the exponentiated values; additive noise is centred as configured, applied once, and clipped to the action bounds; the noise process follows its recurrence.',
     ['inputs', 'configurations', 'histories'],
     'all steps (including zero and far beyond the end), schedule parameters, value tables, noise parameters',
     'Tests check a few steps of one schedule and noise means loosely.',
     ['chainerrl/explorers/epsilon_greedy.py', 'chainerrl/explorers/boltzmann.py', 'chainerrl/explorers/additive_gaussian.py', 'chainerrl/explorers/additive_ou.py', 'chainerrl/explorers/greedy.py'],
     [('schedules', 'chainerrl/explorers/epsilon_greedy.py:LinearDecayEpsilonGreedy'),
      ('OU process', 'chainerrl/explorers/additive_ou.py:AdditiveOU')],
     'property testing with the random source scripted so each decision can be predicted',
     'The Ornstein-Uhlenbeck noise is checked against its recurrence driven by the same draws.')

prop('P21', 'Recurrent models give the same results batched, sequential or one by one',
     'For any set of sequences, evaluating a stateless recurrent model over whole sequences equals evaluating it step by step from the same states, for each sequence independently of what else is in the batch. Selecting, masking and concatenating recurrent states are mutually inverse where they should be, masked entries restart from the initial state, and compositions of recurrent and plain layers keep these laws.',
     ['inputs', 'configurations', 'histories'],
     'all sequence counts, lengths, state contents, layer kinds (LSTM, GRU, RNN, multi-layer) and nested compositions and branchings',
     'Tests use fixed shapes and few compositions.',
     ['chainerrl/links/stateless_recurrent.py', 'chainerrl/links/stateless_recurrent.py', 'chainerrl/links/stateless_recurrent_sequential.py', 'chainerrl/links/stateless_recurrent_branched.py'],
     [('per-link adapters', 'chainerrl/links/stateless_recurrent.py'),
      ('composition', 'chainerrl/links/stateless_recurrent_sequential.py')],
     'metamorphic property testing: batched versus sequential versus per-sequence evaluation',
     'float32 tolerance 1e-4.')

prop('P22', 'Recurrent hidden state is isolated across episodes, evaluation and updates',
     'For any history, a recurrent agent\'s actions depend only on the observations of the current episode of that environment: a new episode starts from the initial state, parallel environments do not share state, and evaluation does not disturb the state used for training. Saving and restoring the hidden state of a stateful recurrent model, temporarily replacing it, or resetting it leaves it exactly as documented afterwards, even if the enclosed computation fails.',
     ['histories', 'fault_sequences'],
     'all nestings of keep / reset / push / pop / get / set around model calls, failing or not, all interleavings of training and evaluation episodes',
     'Tests exercise one nesting on one link.',
     ['chainerrl/recurrent.py', 'chainerrl/agents/dqn.py', 'chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py', 'chainerrl/agents/a3c.py'],
     [('state stack', 'chainerrl/recurrent.py:state_kept'),
      ('batch recurrent states', 'chainerrl/agents/dqn.py:DQN')],
     'stateful property testing against a functional model of the state, plus differential runs of agents on permuted histories',
     'Small LSTM models; exact comparison of states.')

prop('P23', 'Observation normalisation tracks exact statistics of all data seen',
     'After any sequence of batches the normaliser\'s mean and variance equal those of all data seen (until its stop count), it maps values by subtracting and scaling accordingly with clipping, its inverse undoes it, normalising without update changes nothing, and all of this survives saving, loading and copying at any point.',
     ['histories', 'configurations', 'crash_points'],
     'all batch splits and sizes, scales, stop counts, clip thresholds, interleaved use and save/load points',
     'Tests check two large Gaussian batches with loose tolerances.',
     ['chainerrl/links/empirical_normalization.py'],
     [('incremental moments', 'chainerrl/links/empirical_normalization.py:EmpiricalNormalization.experience')],
     'stateful property testing against NumPy statistics over the concatenated data',
     'Relative tolerance 1e-3 in float32 for well-conditioned data.')

prop('P24', 'Serial training runs the exact number of steps and respects episodes',
     'For any environment and settings, serial training takes exactly the requested number of steps beyond the starting offset, resets the environment exactly after terminal states, reset requests or the episode length limit, hands the agent every observation and reward in order, and tells it about every episode end with the right termination flag. Hooks run once per step with the right step number, checkpoints are written at their interval, and on an exception or interruption the agent is saved before the error propagates.',
     ['histories', 'configurations', 'fault_sequences'],
     'all episode-length, terminal and reset patterns, limits, offsets, intervals, and an exception injected at any call',
     'Tests use mocks with one or two fixed scenarios.',
     ['chainerrl/experiments/train_agent.py', 'chainerrl/experiments/evaluator.py'],
     [('loop', 'chainerrl/experiments/train_agent.py:train_agent'),
      ('save on failure', 'chainerrl/experiments/train_agent.py:train_agent')],
     'property testing: scripted environment and recording agent, call log compared with a reference loop; faults injected at generated call indices',
     'Files are written in a scratch directory.')

prop('P25', 'Batched training feeds every environment stream correctly',
     'For any number of environments and any pattern of terminations, reset requests and length limits, batched training presents to the agent, for each environment, exactly the stream it would see alone: the observation acted on, its reward, done and reset flags, then the first observation of a fresh episode after a reset. Finished environments are reset and the others are not, the step count advances by the number of environments until the limit is reached, and hooks, checkpoints and evaluations happen when the count crosses their intervals.',
     ['histories', 'configurations', 'fault_sequences'],
     'all environment counts, done/reset patterns, limits, intervals, offsets, and an exception at any call',
     'Tests run one mock configuration.',
     ['chainerrl/experiments/train_agent_batch.py'],
     [('loop', 'chainerrl/experiments/train_agent_batch.py:train_agent_batch')],
     'property testing: scripted vector environment and recording agent, call log compared with a per-environment reference',
     'In-process vector environment.')

prop('P26', 'Asynchronous training counts every step once and shares its state',
     'With any number of worker processes, asynchronous training takes each global step exactly once until the total is reached, keeps each worker\'s episodes separate with its own environment and seed, evaluates and checkpoints once per interval and not per worker, runs hooks once per step and saves the final agent. Parameters, optimizer state and counters declared shared are seen by every worker, and a worker\'s failure is reported rather than lost.',
     ['schedules', 'histories', 'configurations', 'fault_sequences'],
     'all worker counts, episode patterns, limits and intervals; real process schedules are sampled, one-worker histories are exhaustively controlled',
     'Tests run two fixed configurations with mocks.',
     ['chainerrl/experiments/train_agent_async.py', 'chainerrl/misc/async_.py'],
     [('worker loop', 'chainerrl/experiments/train_agent_async.py:train_loop'),
      ('shared arrays', 'chainerrl/misc/async_.py')],
     'property testing of the worker loop on scripted environments in-process and of real multi-process runs with invariant checks on the logs',
     'Process schedules are whatever the kernel gives: invariants are schedule independent, rare interleavings may be missed.')

prop('P27', 'Evaluation reports true returns and keeps the best agent',
     'For any environments, evaluation runs exactly the requested number of episodes (or steps), each from a fresh reset, and reports their undiscounted returns and lengths, identically for serial and batched evaluation of the same episodes. It acts only in evaluation mode, never training the agent; results are appended one row per evaluation at the first opportunity after each interval; and the best agent is saved exactly when the mean return improves on the best so far.',
     ['histories', 'configurations'],
     'all episode length and reward patterns, environment counts, episode or step budgets, length limits, evaluation intervals and score sequences',
     'Tests cover a few mock episodes and one interval.',
     ['chainerrl/experiments/evaluator.py'],
     [('serial evaluation', 'chainerrl/experiments/evaluator.py:run_evaluation_episodes'),
      ('batched evaluation', 'chainerrl/experiments/evaluator.py:batch_run_evaluation_episodes'),
      ('best agent', 'chainerrl/experiments/evaluator.py:Evaluator')],
     'property testing with scripted environments against a reference evaluation; differential serial versus batched',
     'Files are written in a scratch directory.')

prop('P28', 'Environment wrappers change only what they document',
     'For any wrapped environment and action sequence, each wrapper (dtype casting, reward scaling, action normalisation, action randomisation, time limits) changes only its documented part of the interaction and passes everything else through. Continuing time limits request a reset without marking termination exactly at the limit, also across early resets; normalised actions map the unit box affinely onto the original bounds and back; action randomisation replaces actions with the stated probability and only by admissible ones.',
     ['histories', 'configurations', 'inputs'],
     'all base environment behaviours, action sequences, wrapper parameters and nestings, resets at any time',
     'Tests run short rollouts on one or two gym environments.',
     ['chainerrl/wrappers/cast_observation.py', 'chainerrl/wrappers/continuing_time_limit.py', 'chainerrl/wrappers/normalize_action_space.py', 'chainerrl/wrappers/randomize_action.py', 'chainerrl/wrappers/scale_reward.py', 'chainerrl/misc/env_modifiers.py'],
     [('time limit', 'chainerrl/wrappers/continuing_time_limit.py:ContinuingTimeLimit'),
      ('action scaling', 'chainerrl/wrappers/normalize_action_space.py:NormalizeActionSpace')],
     'property testing: scripted base environments, wrapped and bare interaction logs compared',
     'Scripted environments follow the gym contract.')

prop('P29', 'Atari preprocessing and frame stacking preserve the game stream',
     'For any underlying game stream (through the wrappers or the ALE environment), frame skipping sums the rewards of the skipped frames and shows the pixelwise maximum of the last two, ends as soon as the game does, and never shows frames of another step or episode; life-loss episodes end without restarting the game until it is over; start-of-episode no-ops and fire actions leave a live game whose current frame is the one returned. Frame stacks always contain the last k frames of the current episode, padded with its first, and lazily stacked frames equal eager ones, individually or batched over parallel environments.',
     ['histories', 'configurations'],
     'all game streams (life losses, endings at any frame, including during no-ops), skip and stack sizes, action sequences, resets at any time',
     'Tests compare with a reference wrapper on random play of one or two streams.',
     ['chainerrl/wrappers/atari_wrappers.py', 'chainerrl/wrappers/vector_frame_stack.py', 'chainerrl/envs/ale.py'],
     [('ALE', 'chainerrl/envs/ale.py:initialize'),
      ('skip', 'chainerrl/wrappers/atari_wrappers.py:MaxAndSkipEnv'),
      ('stack', 'chainerrl/wrappers/atari_wrappers.py:FrameStack'),
      ('vector stack', 'chainerrl/wrappers/vector_frame_stack.py:VectorFrameStack')],
     'property testing: scripted game streams with unique frames against a reference stream model',
     'Game simulated by a scripted environment with an ALE-like life counter; the ALE environment by a scripted emulator in place of atari_py.')

prop('P30', 'Vector environments equal their individual environments',
     'For any environments and any sequence of steps and masked resets, a vector environment (in-process or in worker processes) returns exactly what each environment returns when driven alone with the same actions, in order, and its reset touches exactly the environments it is asked to. Seeding reaches each environment with its own seed, closing it ends every environment once, and worker processes leave keyboard interrupts to the main process.',
     ['histories', 'schedules', 'configurations'],
     'all environment counts, step and masked-reset sequences, seeds',
     'Tests run fixed short sequences on CartPole.',
     ['chainerrl/envs/serial_vector_env.py', 'chainerrl/envs/multiprocess_vector_env.py', 'chainerrl/env.py'],
     [('serial', 'chainerrl/envs/serial_vector_env.py:SerialVectorEnv'),
      ('multiprocess', 'chainerrl/envs/multiprocess_vector_env.py:MultiprocessVectorEnv')],
     'differential property testing: serial, multiprocess and individual environments driven by the same generated sequence',
     'Worker processes are real; no timing assertions.')

prop('P31', 'Saved agents load back with the same behaviour and training state',
     'For every agent type, saving at any point of a training run and loading into a freshly built agent of the same configuration restores models, target models, optimizer state and normalisers, so that greedy behaviour is identical and a further identical update from the same data gives identical parameters. Saving changes nothing, and loading replaces all saved parts.',
     ['histories', 'crash_points', 'configurations'],
     'all agent classes, save points after any number of updates, any observations and continuation batches',
     'Tests save and load a dummy agent and check a few attributes.',
     ['chainerrl/agent.py', 'chainerrl/agents'],
     [('attribute saving', 'chainerrl/agent.py:AttributeSavingMixin')],
     'round-trip plus differential continuation over generated training histories',
     'Replay buffers and step counters are documented as not saved and are excluded.')

prop('P32', 'Parameter copying and sharing are exact and never alias by accident',
     'Copying parameters or gradients between models makes them equal without aliasing them, soft copying interpolates with the given rate, and both carry batch-normalisation statistics along, and sharing parameters or optimizer state between processes preserves values, shapes and types while making later in-place writes visible to all. Synchronisation rejects unknown methods.',
     ['inputs', 'histories', 'configurations'],
     'all parameter shapes (including scalars and uninitialised ones), nested models, rates, persistent values, optimizer kinds',
     'Tests check one small link.',
     ['chainerrl/misc/copy_param.py', 'chainerrl/misc/async_.py'],
     [('copy', 'chainerrl/misc/copy_param.py'),
      ('sharing', 'chainerrl/misc/async_.py')],
     'property testing over generated models against array-level references',
     'Sharing visibility is tested both in-process and through a forked process.')

prop('P33', 'Optimizer, initialiser and layer building blocks match their formulae',
     'For any gradients, the asynchronous RMSprop optimizers and the weight-decay hook perform their documented update with shared statistics; orthogonal and variance-scaling initialisers give orthonormal or correctly scaled weights for every shape; and building-block layers (perceptrons with and without batch normalisation, branches, sequences, noisy linear layers, reward normalisation) compute exactly their stated composition.',
     ['inputs', 'configurations'],
     'all shapes, gradient sequences, hyper-parameters, layer sizes and nestings',
     'Tests check that training reduces a loss or a few shapes.',
     ['chainerrl/optimizers/rmsprop_async.py', 'chainerrl/optimizers/nonbias_weight_decay.py', 'chainerrl/initializers/orthogonal.py', 'chainerrl/initializers/constant.py', 'chainerrl/links/mlp.py', 'chainerrl/links/noisy_linear.py', 'chainerrl/links/branched.py', 'chainerrl/links/sequence.py'],
     [('RMSprop', 'chainerrl/optimizers/rmsprop_async.py:RMSpropAsyncRule'),
      ('noisy layer', 'chainerrl/links/noisy_linear.py:FactorizedNoisyLinear')],
     'property testing against NumPy references',
     'float32 tolerance.')

prop('P34', 'Policy and value heads produce valid, bounded, consistent outputs',
     'For every input and parameter setting, policies return valid distributions (variances above their floor, means and actions within configured bounds), and Q-functions return one value per action or state-action pair; dueling heads combine value and mean-centred advantage, distributional heads return normalised distributions over their support, and outputs for a batch equal outputs for its rows.',
     ['inputs', 'configurations'],
     'all network shapes, bounds, variance kinds, inputs of any magnitude',
     'Tests check shapes on one random batch.',
     ['chainerrl/policies', 'chainerrl/q_functions', 'chainerrl/v_functions', 'chainerrl/policy.py'],
     [('gaussian heads', 'chainerrl/policies/gaussian_policy.py'),
      ('dueling', 'chainerrl/q_functions/dueling_dqn.py:DuelingDQN')],
     'property testing: validity predicates, algebraic identities and row-wise metamorphic relation',
     'float32 tolerance.')

prop('P35', 'Training is reproducible from its seeds',
     'For every agent type, two runs with the same seed, configuration and environment stream produce identical actions, parameters and statistics, and the library draws randomness only from the seeded global sources. Worker seeds derived for parallel runs are distinct and deterministic.',
     ['histories', 'configurations'],
     'all agents, seeds, environment streams and interleaved evaluation',
     'Reproducibility is not tested.',
     ['chainerrl/misc/random_seed.py', 'chainerrl/agents', 'chainerrl/explorers'],
     [('seeding', 'chainerrl/misc/random_seed.py:set_random_seed')],
     'differential property testing: every generated run is executed twice from the same seed and compared bit for bit',
     'CPU only, one thread.')

prop('P36', 'Hooks, demonstrations and run directories do what they document',
     'Interpolation hooks set, at every step, the exact linear interpolation and its end values beyond the range; demonstration collection records exactly the requested number of complete episodes (terminal, reset or limited) as they happened; output-directory preparation never overwrites a previous run and records arguments, command, environment and revision; reward filters and other small utilities compute their definitions.',
     ['histories', 'configurations', 'inputs'],
     'all step sequences, ranges, episode patterns and limits, argument sets',
     'Tests check one or two fixed settings.',
     ['chainerrl/experiments/hooks.py', 'chainerrl/experiments/collect_demos.py', 'chainerrl/experiments/prepare_output_dir.py', 'chainerrl/misc/reward_filter.py'],
     [('interpolation', 'chainerrl/experiments/hooks.py:LinearInterpolationHook'),
      ('collection', 'chainerrl/experiments/collect_demos.py:collect_demonstrations')],
     'property testing against reference computations on scripted environments in scratch directories',
     'File effects are confined to a scratch directory.')

prop('P37', 'Agents act as their mode documents: explore, sample or be greedy',
     'In training an agent acts exactly as its explorer decides, which it asks once per environment and step with the step count and the current greedy action and values of that observation, or, for policy agents, by sampling its current policy independently per environment; burn-in actions are used before the first model update and never after. In evaluation it neither explores nor uses burn-in actions, is greedy where it is value-based, follows act_deterministically where it is policy-based, the same serially and batched, and changes no parameter or statistic of the observations.',
     ['inputs', 'histories', 'configurations'],
     'all agent classes, serial and batched, all observations and policies, explorers with any plan, burn-in lengths and update schedules',
     'Tests check action shapes and final scores; which policy an action was drawn from shows only in distributions and call logs.',
     ['chainerrl/agents', 'chainerrl/explorer.py'],
     [('acting', 'chainerrl/agents/dqn.py:act_and_train'),
      ('evaluation mode', 'chainerrl/agents/ppo.py:batch_act'),
      ('burn-in', 'chainerrl/agents/td3.py:batch_act_and_train')],
     'property testing: generated agents and histories with recording explorers against the current networks, and goodness-of-fit of sampled actions (error probability below 1e-9)',
     'SARSA is checked without updates (it asks the explorer for targets too) and implicit quantile agents where all quantiles agree on the best action.')

prop('P38', 'Statistics reported by agents are what training actually did',
     'get_statistics yields uniquely named plain numbers, the same names throughout, without side effects. During training, average_q is the exponential moving average (decay average_q_decay, from 0) of the Q-value of the greedy action per action taken (the mean over environments in a batch); average_value and average_entropy likewise of the current value prediction and policy entropy, and for PPO and TRPO the mean over the last *_stats_window of them (nan without any). Loss averages are those of the losses of each update; n_updates counts optimizer updates; explained_variance is 1 - Var[return - v]/Var[return] over all episodes of the last batch; TRPO averages the KL divergence of accepted steps and the step sizes of all, 0 for a rejected one; SAC and TD3 report means of predicted Q-values of updates and the current temperature; A2C averages the policy loss and entropy of each update, PCL its loss, and ACER the divergence from the average policy of each step it learns from.',
     ['histories', 'configurations'],
     'all agent classes, serial and batched where applicable, generated histories of rewards and episode ends, decay rates and window sizes',
     'Tests only call get_statistics; which values went into an average over a history is not compared with anything.',
     ['chainerrl/agents'],
     [('Q-values', 'chainerrl/agents/dqn.py:get_statistics'),
      ('windows', 'chainerrl/agents/ppo.py:get_statistics'),
      ('step sizes', 'chainerrl/agents/trpo.py:_line_search')],
     'property testing: generated histories on agents kept from learning, each report compared with averages of reference values of every step and update',
     'Not asserted: what evaluation adds to an average, what average_value means for A2C, and averages of losses with random targets.')

prop('P39', 'Pretrained models arrive completely, once, or not at all',
     'download_model(alg, env, model_type) returns the directory of exactly the files published for that algorithm, game (its name without NoFrameskip-v4) and type, and whether it was stored before. A stored model is never asked for again and never changes, whatever the server has since; a download that fails in any way (not found, connection lost, truncated or corrupt data) or whose process dies at any point raises or leaves nothing half-done (and, unless the process died, no part of a file) behind, and the next call gets the complete model. Concurrent processes all get complete models, downloaded once. Unsupported types are rejected without a download.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'],
     'all sequences of requested models, faults of the server, file operations at which a process may die, and processes asking at the same time',
     'Tests need the network and download each model once; no fault or crash is injected.',
     ['chainerrl/misc/pretrained_models.py'],
     [('store', 'chainerrl/misc/pretrained_models.py:download_and_store_model'),
      ('cache', 'chainerrl/misc/pretrained_models.py:cached_download')],
     'property testing with fault and crash injection: generated histories against a failing HTTP server on the loopback interface, processes killed at generated file operations, concurrent processes',
     'Crashes are process deaths, not losses of power: what was written stays written.')

prop('P40', 'Networks act in test mode and learn in training mode',
     'For every agent, whenever act or batch_act is called, all networks run in test mode (chainer.config.train False), so that dropout, batch normalisation and the like neither disturb evaluation nor are changed by it. While training, every output that gradients pass through is computed in training mode; agents that learn from replay or batches of episodes (the DQN family, DDPG, TD3, SAC, PGT, PPO, TRPO) compute everything else (actions, targets, advantages, old policies, line searches) in test mode, and target networks never run in training mode. The mode is as before after each call.',
     ['histories', 'configurations'],
     'all agent classes, serial and batched, recurrent or not, generated histories with updates and evaluation in between',
     'The networks of the tests behave alike in both modes, so nothing there depends on it.',
     ['chainerrl/agents'],
     [('targets', 'chainerrl/agents/dqn.py:_compute_target_values'),
      ('evaluation', 'chainerrl/agents/ppo.py:batch_act'),
      ('actors', 'chainerrl/agents/a3c.py:act')],
     'property testing: generated histories under hooks that record the mode of every call of a network and whether gradients pass through it later',
     'Not asserted: the mode in which A2C, A3C, NSQ, ACER, PCL and REINFORCE act while training and compute their targets.')

prop('P41', 'What the library is handed, and what it handed out, stays as it is',
     'Nothing that a caller hands over is changed: observations, actions, rewards, lists of them, transitions and batches of transitions, inputs and parameters of networks, functions, distributions and action values, gradients from above, bounds, masks, and what an environment returned to a wrapper. Nothing that was handed out changes later: actions, observations and lists of observations of vector environments, stacked frames, sampled transitions, statistics, batches, samples and log probabilities. Agents do not look at a list again after the call it was passed to, so a caller may use its lists again. Left out is what is documented to be written: parameters in an update, statistics of networks, needs_reset of ContinuingTimeLimit, gradients in an optimizer hook, the weight a prioritized buffer adds to a transition.',
     ['inputs', 'histories'],
     'all agents, buffers, wrappers, vector environments, explorers, functions, distributions, action values and network heads with generated inputs and histories',
     'Tests look at the result of a call, hardly ever at its arguments afterwards or at an earlier result.',
     ['chainerrl/agents', 'chainerrl/replay_buffer.py', 'chainerrl/replay_buffers', 'chainerrl/wrappers', 'chainerrl/envs', 'chainerrl/functions', 'chainerrl/explorers', 'chainerrl/distribution.py', 'chainerrl/action_value.py'],
     [('lists are copied', 'chainerrl/agents/td3.py:batch_act_and_train'),
      ('actions are copied', 'chainerrl/wrappers/normalize_action_space.py:action'),
      ('statistics are copied', 'chainerrl/links/empirical_normalization.py:mean')],
     'property testing: everything that crosses the interface in generated histories is recorded by reference and by copy, and compared again after later calls; training with lists used again against training with fresh ones',
     'Arrays are only compared, not used again by the caller: agents keep references to observations by design.')

prop('P42', 'Agents see observations only through phi, exactly once',
     'For every agent, training and acting with a preprocessing function phi on what the environment gives is exactly the same as without it on observations that were preprocessed beforehand: the same actions in training and evaluation, and bit for bit the same parameters, targets, optimizer states and observation statistics. This holds whatever kind of object the raw observation is (arrays of another shape or type, tuples, dictionaries, opaque objects), because nothing but phi touches it.',
     ['inputs', 'histories'],
     'all agent classes, serial and batched, recurrent or not, six kinds of raw observations, generated histories with updates, cuts and evaluation',
     'The tests leave phi at the identity, for which every missing or doubled call of it is invisible.',
     ['chainerrl/agents', 'chainerrl/misc/batch_states.py', 'chainerrl/replay_buffer.py'],
     [('batching', 'chainerrl/misc/batch_states.py:batch_states'),
      ('replay', 'chainerrl/agents/acer.py:update_from_replay'),
      ('advantages', 'chainerrl/agents/ppo.py:_add_log_prob_and_value_to_episodes')],
     'property testing: metamorphic relation between two trainings on generated histories, one with phi and raw observations and one with preprocessed observations',
     '')

prop('P43', 'Evaluation leaves no trace in training',
     'Evaluating an agent (act or batch_act, batch_observe, stop_episode) between the episodes of training, and for agents trained on several environments at any time, changes nothing of the training that follows: the same actions, bit for bit the same parameters, target networks, optimizer states and observation statistics, the same number of stored transitions and the same statistics (except average_q, which by design also averages over states acted on in evaluation), provided that the state of the random number generators is put back.',
     ['histories'],
     'all agent classes, serial and batched, recurrent or not, generated training histories with evaluations of generated lengths and kinds in between',
     'Tests evaluate after training and never compare a training with the same training without evaluation.',
     ['chainerrl/agents'],
     [('end of an evaluation', 'chainerrl/agents/dqn.py:stop_episode'),
      ('separate recurrent states', 'chainerrl/agents/ppo.py:batch_act')],
     'property testing: metamorphic relation between two trainings on generated histories, one of them with evaluations in between',
     '')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'hook_needed': None,
                }}) + '\n')
    have = {os.path.basename(n)[:-3].upper()
            for n in os.listdir(os.path.join(HERE, 'pbt', 'props'))
            if n.startswith('p') and n.endswith('.py')}
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check.py {} --tier quick'.format(p['id']),
                'thorough_cmd': './check.py {} --tier thorough'.format(
                    p['id']),
                'technique': p['technique'],
                'level': 'exploration',
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'],
                       'reason': 'no check built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': './setup.sh',
            'checks': checks,
            'not_applicable': na,
            'notes': 'Property-based testing with Hypothesis; see DESIGN.md. '
                     'No hooks in /repo are needed.',
        }, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        for line in open(os.path.join(HERE, 'properties.jsonl')):
            jsonschema.validate(json.loads(line), json.load(
                open('/root/.vp/PROPERTIES.schema.json')))
        jsonschema.validate(
            json.load(open(os.path.join(HERE, 'MANIFEST.json'))),
            json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('valid', len(P), 'properties', len(checks), 'checks')
    except ImportError:
        pass


if __name__ == '__main__':
    main()
