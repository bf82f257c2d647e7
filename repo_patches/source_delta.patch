From 7d706702d120bd12ddfb74ad192304e2abced114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 01/41] fix: use collections.abc.Iterable when unchaining
 recurrent states

collections.Iterable was removed in Python 3.10, so every update of a
recurrent A3C, ACER, NSQ or PCL agent raised AttributeError.
---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..952fe36 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+import collections.abc
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, collections.abc.Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From 5561dbb267bb330c91d2c4444d5055b42246bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 02/41] fix: restore the initial state of an LSTM when setting
 a None state

Saving the state of an LSTM that has not been called yet gives None;
restoring it left the state of the LSTM untouched instead of resetting it, so
state_kept and state_reset leaked state out of their context.
---
 chainerrl/recurrent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 952fe36..566d452 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -120,6 +120,8 @@ def set_state(chain, state):
             # LSTM.set_state doesn't accept None state
             if c is not None:
                 link.set_state(c, h)
+            else:
+                link.reset_state()
         elif isinstance(link, Recurrent):
             link.set_state(s)
         elif isinstance(link, (chainer.Chain, chainer.ChainList)):
-- 
2.43.0


From 3784ed7ec68996609b766af9dd29256dd77399c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 03/41] fix: restore the recurrent state when the body of
 state_kept or state_reset raises

The saved state stayed on the stack, so the link kept the state of the failed
computation and the next restore got a wrong state.
---
 chainerrl/recurrent.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 566d452..2a727c2 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -78,14 +78,18 @@ class Recurrent(object, metaclass=ABCMeta):
     @contextlib.contextmanager
     def state_reset(self):
         self.push_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
     @contextlib.contextmanager
     def state_kept(self):
         self.push_and_keep_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
 
 def get_state(chain):
@@ -188,8 +192,10 @@ def state_kept(link):
     """
     if isinstance(link, Recurrent):
         link.push_and_keep_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
 
@@ -223,7 +229,9 @@ def state_reset(link):
     """
     if isinstance(link, Recurrent):
         link.push_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
-- 
2.43.0


From 1d21eb7569ec335319dec74f850b3ba8534c1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 04/41] fix: respect omega in the maximum entropy mellowmax
 policy

Both the function and the distribution ignored their omega argument and
always used omega=1.
---
 chainerrl/distribution.py        | 3 ++-
 chainerrl/functions/mellowmax.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 529c79f..4e24ac9 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,7 +238,8 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(self.values)
+            return mellowmax.maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     @cached_property
     def all_log_prob(self):
diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index c73bec4..a069ac4 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -47,7 +47,7 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
         outputs (Variable)
     """
     xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, axis=1)
+    mm = mellowmax(values, omega=omega, axis=1)
 
     # Advantage: Q - mellowmax(Q)
     batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-- 
2.43.0


From fa685e4c6f4e9c4a726be97c298c8d7b239ac4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 05/41] fix: collect_demonstrations lets episodes run one step
 over max_episode_len

---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..201cfc0 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,10 +52,10 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_r += r
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
-- 
2.43.0


From 2e85eaa0c1862ce4655b7cc3070fe2e27317d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 06/41] fix: LinearDecayEpsilonGreedy divides by zero when
 decay_steps is 0

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From eb9ff8b3819d43a6a2c95b5d64d66fafd86531b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 07/41] fix: FireResetEnv returns the last frame of the
 previous game

When the second forced action ended the game, the environment was reset but
the observation from before the reset was returned.
---
 chainerrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index e6185e9..3790347 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -66,7 +66,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From ef93fcd07c90ddc56950aba992928aa1fdab005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 08/41] fix: EpisodicLifeEnv starts an episode on a finished
 game

When the no-op step taken on reset after a lost life ended the game, the
episode started in a terminal state and the game was stepped further.
---
 chainerrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 3790347..b3c23a2 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -108,7 +108,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get('needs_reset', False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 59b754f6699fdec1833b4e76e599b2d084901123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 09/41] fix: MaxAndSkipEnv shows frames of an earlier step when
 a step is cut short

When an episode was interrupted in the middle of a step (needs_reset), the
observation was computed from frames left in the buffer by earlier steps.
---
 chainerrl/wrappers/atari_wrappers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index b3c23a2..4552efa 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -130,9 +130,11 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
+            # Keep the last two frames of this step only
+            if i == 0:
+                self._obs_buffer[:] = obs
+            else:
+                self._obs_buffer[0] = self._obs_buffer[1]
                 self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get('needs_reset', False):
-- 
2.43.0


From e298fe74b1510a3d160bbbd460d1d73fd1d2701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 10/41] fix: SerialVectorEnv.spec is the observation space
 instead of the spec

---
 chainerrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..dc7c21e 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], 'spec', None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From b545c682612cec3414135e9dbe7e0aadeae8570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 11/41] fix: EmpiricalNormalization keeps a stale scale after
 loading

The cached inverse of the standard deviation survived deserialization.
---
 chainerrl/links/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..a2c0822 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -48,6 +48,11 @@ class EmpiricalNormalization(chainer.Link):
 
         return self._cached_std_inverse
 
+    def serialize(self, serializer):
+        super(EmpiricalNormalization, self).serialize(serializer)
+        # clear cache as statistics may have been loaded
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From fd645d3bb6e06e01b2c68beec11b1f4c96db6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 12/41] fix: EmpiricalNormalization mixes updated means with
 old scales

With update=True the mean was a view of the array updated in place by
experience() while the scale was computed before it, so the output
corresponded to no single set of statistics and inverse() did not undo it.
---
 chainerrl/links/empirical_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index a2c0822..71b6a15 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -95,12 +95,13 @@ class EmpiricalNormalization(chainer.Link):
         """
 
         xp = self.xp
-        mean = xp.broadcast_to(self._mean, x.shape)
-        std_inv = xp.broadcast_to(self._std_inverse, x.shape)
 
         if update:
             self.experience(x)
 
+        mean = xp.broadcast_to(self._mean, x.shape)
+        std_inv = xp.broadcast_to(self._std_inverse, x.shape)
+
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
             normalized = xp.clip(
-- 
2.43.0


From 019fe9800d96a78311ece75a83aabb2f32c8066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 13/41] fix: PCL without a replay buffer fails at the second
 step

replay_buffer=None is the default and documented to disable experience
replay, but transitions were appended to it unconditionally.
---
 chainerrl/agents/pcl.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a5aef17..a6f4b37 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -408,7 +408,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             (1 - self.average_entropy_decay) *
             (float(action_distrib.entropy.array[0]) - self.average_entropy))
 
-        if self.last_state is not None:
+        if self.replay_buffer is not None and self.last_state is not None:
             assert self.last_action is not None
             assert self.last_action_distrib is not None
             # Add a transition to the replay buffer
@@ -457,15 +457,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             self.model.reset_state()
 
         # Add a transition to the replay buffer
-        self.replay_buffer.append(
-            state=self.last_state,
-            action=self.last_action,
-            reward=reward,
-            next_state=state,
-            next_action=self.last_action,
-            is_state_terminal=done,
-            mu=self.last_action_distrib)
-        self.replay_buffer.stop_current_episode()
+        if self.replay_buffer is not None:
+            self.replay_buffer.append(
+                state=self.last_state,
+                action=self.last_action,
+                reward=reward,
+                next_state=state,
+                next_action=self.last_action,
+                is_state_terminal=done,
+                mu=self.last_action_distrib)
+            self.replay_buffer.stop_current_episode()
 
         self.last_state = None
         self.last_action = None
-- 
2.43.0


From 2e04696ac20bd2a10fe69a81dfb3ae637a7c1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 14/41] fix: PrioritizedEpisodicReplayBuffer keeps transitions
 of dropped episodes

Transitions and episodes were evicted independently: the size and
sample() covered transitions of episodes that were already gone (or cut
in the middle), sample() returned bare transitions unlike the other
episodic buffer, and the room left was forgotten by save and load.
---
 chainerrl/replay_buffers/prioritized_episodic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index e692cb1..3c17db8 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -24,8 +24,8 @@ class PrioritizedEpisodicReplayBuffer (
         self.episodic_memory = PrioritizedBuffer(
             capacity=None,
             wait_priority_after_sampling=wait_priority_after_sampling)
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -57,12 +57,13 @@ class PrioritizedEpisodicReplayBuffer (
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and \
+                    len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 07a2193ce50e346c13a6948c03345d7ab9d077a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 15/41] fix: mixed uniform and prioritized samples can repeat
 an item

With uniform_ratio > 0 and wait_priority_after_sampling=False the
uniformly chosen items stayed available to the prioritized choice.
---
 chainerrl/misc/prioritized.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 33e8cc6..426a514 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -46,8 +46,7 @@ class PrioritizedBuffer (object):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = \
-                self.priority_sums.uniform_sample(
-                    n_uniform, remove=self.wait_priority_after_sampling)
+                self.priority_sums.uniform_sample(n_uniform, remove=True)
             indices.extend(un_indices)
             priorities.extend(un_priorities)
             n -= n_uniform
@@ -55,11 +54,14 @@ class PrioritizedBuffer (object):
                 + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = \
-            self.priority_sums.prioritized_sample(
-                n, remove=self.wait_priority_after_sampling)
+            self.priority_sums.prioritized_sample(n, remove=True)
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
 
+        if not self.wait_priority_after_sampling:
+            for i, pri in zip(indices, priorities):
+                self.priority_sums[i] = pri
+
         probs = [
             uniform_ratio / len(self)
             + (1 - uniform_ratio) * pri / total_priority
-- 
2.43.0


From 1cd827e10e7ad33bf1d55a582471eb3be2ab8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 16/41] fix: train_agent_async ignores step_offset

The global step counter started from zero whatever the offset.
---
 chainerrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_async.py b/chainerrl/experiments/train_agent_async.py
index 9cc89a9..5f49333 100644
--- a/chainerrl/experiments/train_agent_async.py
+++ b/chainerrl/experiments/train_agent_async.py
@@ -173,7 +173,7 @@ def train_agent_async(outdir, processes, make_env,
     # Prevent numpy from using multiple threads
     os.environ['OMP_NUM_THREADS'] = '1'
 
-    counter = mp.Value('l', 0)
+    counter = mp.Value('l', step_offset)
     episodes_counter = mp.Value('l', 0)
     training_done = mp.Value('b', False)  # bool
 
-- 
2.43.0


From 8ebec7b436d60e0121b7afc8c4ea67fa113726ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 17/41] fix: train_agent_batch goes on after a successful score
 of zero

A mean score of exactly 0 was taken for no evaluation.
---
 chainerrl/experiments/train_agent_batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..1b37c79 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -107,8 +107,9 @@ def train_agent_batch(agent, env, steps, outdir,
                     ))
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
-                if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
+                eval_score = evaluator.evaluate_if_necessary(
+                    t=t, episodes=np.sum(episode_idx))
+                if eval_score is not None:
                     if (successful_score is not None and
                             evaluator.max_score >= successful_score):
                         break
-- 
2.43.0


From ce13c5c3b61cfc16df056fd35235f9acc71edb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 18/41] fix: AsyncEvaluator keeps its best score in single
 precision

An equal mean score could count as an improvement after rounding, and a
small improvement could be missed.
---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From 336a8bb98d80102e153bb5ef56b3a4d3f1e0ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 19/41] fix: evaluation episodes cut batch training episodes in
 the replay buffer

DDPG, TD3 and SAC told the replay buffer to stop the current episode of
environment 0 at the end of every evaluation episode, although batch
training may be in the middle of it.
---
 chainerrl/agents/ddpg.py              | 6 +++++-
 chainerrl/agents/soft_actor_critic.py | 6 +++++-
 chainerrl/agents/td3.py               | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..253fb18 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -455,11 +455,15 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
+        in_training_episode = self.last_state is not None
         self.last_state = None
         self.last_action = None
         if isinstance(self.model, Recurrent):
             self.model.reset_state()
-        self.replay_buffer.stop_current_episode()
+        if in_training_episode:
+            # Otherwise this ends an evaluation episode, which must not affect
+            # episodes being recorded by batch training
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index b1258f2..e01c7f1 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -401,9 +401,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
+        in_training_episode = self.last_state is not None
         self.last_state = None
         self.last_action = None
-        self.replay_buffer.stop_current_episode()
+        if in_training_episode:
+            # Otherwise this ends an evaluation episode, which must not affect
+            # episodes being recorded by batch training
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 4077e77..b472484 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -353,9 +353,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
+        in_training_episode = self.last_state is not None
         self.last_state = None
         self.last_action = None
-        self.replay_buffer.stop_current_episode()
+        if in_training_episode:
+            # Otherwise this ends an evaluation episode, which must not affect
+            # episodes being recorded by batch training
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 975dcd4d57f22ea3c26d5f124a8c93c29f1e9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 20/41] fix: PAL and DoublePAL use advantages of terminal
 states

The persistent advantage of a terminal next state was taken from the
target network, whose values there are never trained, instead of zero.
---
 chainerrl/agents/double_pal.py | 2 ++
 chainerrl/agents/pal.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/chainerrl/agents/double_pal.py b/chainerrl/agents/double_pal.py
index e65c748..75165e0 100644
--- a/chainerrl/agents/double_pal.py
+++ b/chainerrl/agents/double_pal.py
@@ -56,6 +56,8 @@ class DoublePAL(pal.PAL):
             next_advantage = F.reshape(
                 target_next_qout.compute_advantage(batch_actions),
                 (batch_size,))
+            # Values of terminal states are zero, and so are their advantages
+            next_advantage = (1.0 - batch_terminal) * next_advantage
             tpal_q = t_q + self.alpha * \
                 F.maximum(cur_advantage, next_advantage)
 
diff --git a/chainerrl/agents/pal.py b/chainerrl/agents/pal.py
index 7514439..6f636fa 100644
--- a/chainerrl/agents/pal.py
+++ b/chainerrl/agents/pal.py
@@ -64,6 +64,8 @@ class PAL(dqn.DQN):
             next_advantage = F.reshape(
                 target_next_qout.compute_advantage(batch_actions),
                 (batch_size,))
+            # Values of terminal states are zero, and so are their advantages
+            next_advantage = (1.0 - batch_terminal) * next_advantage
             tpal_q = t_q + self.alpha * \
                 F.maximum(cur_advantage, next_advantage)
 
-- 
2.43.0


From 1f9c56ceff1f1fa1cc5f13d702ceefa275423267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 21/41] fix: DDPG discounts n-step returns as if they were
 one-step

The bootstrapped value was multiplied by gamma whatever the number of
steps of the experience, unlike in the other agents.
---
 chainerrl/agents/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 253fb18..0873862 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -194,7 +194,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch['discount'] * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From 0c8e6046b9b42e0e67b1af2a52ab7f8034da40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 22/41] fix: DDPG, TD3 and SAC ignore batch_states when
 updating

---
 chainerrl/agents/ddpg.py              | 7 +++++--
 chainerrl/agents/soft_actor_critic.py | 4 +++-
 chainerrl/agents/td3.py               | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 0873862..3b0da0b 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -253,7 +253,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.critic_optimizer.update(lambda: self.compute_critic_loss(batch))
         self.actor_optimizer.update(lambda: self.compute_actor_loss(batch))
 
@@ -271,7 +273,8 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                     break
                 transitions.append([ep[i]])
             batch = batch_experiences(
-                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma)
+                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma,
+                batch_states=self.batch_states)
             batches.append(batch)
 
         with self.model.state_reset(), self.target_model.state_reset():
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index e01c7f1..b452006 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -282,7 +282,9 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index b472484..054adb7 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -229,7 +229,9 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         if self.q_func1_optimizer.t % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 0ab862705372760ae0f118bc642bfcaa65395788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 23/41] fix: TRPO ignores batch_states in its updates

---
 chainerrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..8a5a539 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -356,7 +356,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -376,7 +376,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -404,7 +405,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states(
+            [b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0


From dc35a71c12b67f929102b5a7a556f84ca7cc39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 24/41] fix: TRPO's search for old-style functions takes
 exponential time

---
 chainerrl/agents/trpo.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 8a5a539..c5256cf 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -74,15 +74,20 @@ def _mean_or_nan(xs):
 def _find_old_style_function(outputs):
     """Find old-style functions in the computational graph."""
     found = []
-    for v in outputs:
+    visited = set()
+    stack = list(outputs)
+    while stack:
+        v = stack.pop()
         assert isinstance(v, (chainer.Variable, chainer.variable.VariableNode))
-        if v.creator is None:
+        creator = v.creator
+        if creator is None or id(creator) in visited:
             continue
-        if isinstance(v.creator, chainer.Function):
-            found.append(v.creator)
+        visited.add(id(creator))
+        if isinstance(creator, chainer.Function):
+            found.append(creator)
         else:
-            assert isinstance(v.creator, chainer.FunctionNode)
-        found.extend(_find_old_style_function(v.creator.inputs))
+            assert isinstance(creator, chainer.FunctionNode)
+        stack.extend(creator.inputs)
     return found
 
 
-- 
2.43.0


From 1ffd71e91de14411b6ce1a74e7f8b9efeb81f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 25/41] fix: conjugate_gradient returns NaN when the start is
 the solution

---
 chainerrl/misc/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/misc/conjugate_gradient.py b/chainerrl/misc/conjugate_gradient.py
index 994413f..d7ece3f 100644
--- a/chainerrl/misc/conjugate_gradient.py
+++ b/chainerrl/misc/conjugate_gradient.py
@@ -21,6 +21,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     xp = chainer.cuda.get_array_module(b)
     x = xp.zeros_like(b)
     r0 = b - A_product_func(x)
+    if xp.linalg.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = xp.dot(r0, r0) / xp.dot(A_product_func(p), p)
-- 
2.43.0


From c6f994575c16aed291bfed7d871315b6ef043dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 26/41] fix: repr of distributions over raw arrays (e.g.
 copies) fails

---
 chainerrl/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 4e24ac9..0ea654b 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -177,7 +177,7 @@ class SoftmaxDistribution(CategoricalDistribution):
     """
 
     def __init__(self, logits, beta=1.0, min_prob=0.0):
-        self.logits = logits
+        self.logits = _wrap_by_variable(logits)
         self.beta = beta
         self.min_prob = min_prob
         self.n = logits.shape[1]
@@ -228,7 +228,7 @@ class MellowmaxDistribution(CategoricalDistribution):
     """
 
     def __init__(self, values, omega=8.):
-        self.values = values
+        self.values = _wrap_by_variable(values)
         self.omega = omega
 
     @property
-- 
2.43.0


From 7ec71e2b015659e4772462e02a3593951ce14c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 27/41] fix: entropy of MellowmaxDistribution is NaN when a
 probability underflows

---
 chainerrl/distribution.py        |  6 +--
 chainerrl/functions/mellowmax.py | 68 ++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 0ea654b..3edc5ec 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,13 +238,13 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(
-                self.values, omega=self.omega)
+            return F.exp(self.all_log_prob)
 
     @cached_property
     def all_log_prob(self):
         with chainer.force_backprop_mode():
-            return F.log(self.all_prob)
+            return mellowmax.log_maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     def copy(self):
         return MellowmaxDistribution(_unwrap_variable(self.values).copy(),
diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index a069ac4..ecf15ed 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -26,6 +26,33 @@ def mellowmax(values, omega=1., axis=1):
     return (F.logsumexp(omega * values, axis=axis) - np.log(n)) / omega
 
 
+def _maximum_entropy_mellowmax_logits(values, omega, beta_min, beta_max):
+    xp = chainer.cuda.get_array_module(values)
+    mm = mellowmax(values, omega=omega, axis=1)
+
+    # Advantage: Q - mellowmax(Q)
+    batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
+    # Move data to CPU because we use Brent's algorithm in scipy
+    batch_adv = chainer.cuda.to_cpu(batch_adv.array)
+    batch_beta = np.empty(mm.shape, dtype=np.float32)
+
+    # Beta is computed as the root of this function
+    def f(y, adv):
+        return np.sum(np.exp(y * adv) * adv)
+
+    for idx in np.ndindex(mm.shape):
+        idx_full = idx[:1] + (slice(None),) + idx[1:]
+        adv = batch_adv[idx_full]
+        try:
+            beta = scipy.optimize.brentq(
+                f, a=beta_min, b=beta_max, args=(adv,))
+        except ValueError:
+            beta = 0
+        batch_beta[idx] = beta
+
+    return xp.expand_dims(xp.asarray(batch_beta), 1) * values
+
+
 def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
     """Maximum entropy mellowmax policy function.
 
@@ -46,27 +73,28 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
     Returns:
         outputs (Variable)
     """
-    xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, omega=omega, axis=1)
+    return F.softmax(_maximum_entropy_mellowmax_logits(
+        values, omega, beta_min, beta_max))
 
-    # Advantage: Q - mellowmax(Q)
-    batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-    # Move data to CPU because we use Brent's algorithm in scipy
-    batch_adv = chainer.cuda.to_cpu(batch_adv.array)
-    batch_beta = np.empty(mm.shape, dtype=np.float32)
 
-    # Beta is computed as the root of this function
-    def f(y, adv):
-        return np.sum(np.exp(y * adv) * adv)
+def log_maximum_entropy_mellowmax(
+        values, omega=1., beta_min=-10, beta_max=10):
+    """Logarithm of the maximum entropy mellowmax policy function.
 
-    for idx in np.ndindex(mm.shape):
-        idx_full = idx[:1] + (slice(None),) + idx[1:]
-        adv = batch_adv[idx_full]
-        try:
-            beta = scipy.optimize.brentq(
-                f, a=beta_min, b=beta_max, args=(adv,))
-        except ValueError:
-            beta = 0
-        batch_beta[idx] = beta
+    This is more stable than applying `log` to `maximum_entropy_mellowmax`,
+    whose outputs can underflow to zero.
 
-    return F.softmax(xp.expand_dims(xp.asarray(batch_beta), 1) * values)
+    Args:
+        values (Variable or ndarray):
+            Input values. Mellowmax is taken along the second axis.
+        omega (float):
+            Parameter of mellowmax.
+        beta_min (float):
+            Minimum value of beta, used in Brent's algorithm.
+        beta_max (float):
+            Maximum value of beta, used in Brent's algorithm.
+    Returns:
+        outputs (Variable)
+    """
+    return F.log_softmax(_maximum_entropy_mellowmax_logits(
+        values, omega, beta_min, beta_max))
-- 
2.43.0


From d7c093ac13b66f8dff42600900fc1413a77e9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 28/41] fix: StatelessRecurrent.__call__ rejects tuple inputs

---
 chainerrl/links/stateless_recurrent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/links/stateless_recurrent.py b/chainerrl/links/stateless_recurrent.py
index 79ad73f..57c8927 100644
--- a/chainerrl/links/stateless_recurrent.py
+++ b/chainerrl/links/stateless_recurrent.py
@@ -72,7 +72,7 @@ class StatelessRecurrent(object):
             chainer.Variable, ndarray, or tuple: One-step batched output.
             object: New batched recurrent state.
         """
-        assert isinstance(x, (chainer.Variable, self.xp.ndarray))
+        assert isinstance(x, (chainer.Variable, self.xp.ndarray, tuple))
         return self.n_step_forward(
             split_one_step_batch_input(x),
             recurrent_state,
-- 
2.43.0


From 2e48a16729971916d5bb4d0d47ab34c148ada584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 29/41] fix: EmpiricalNormalization with a clip threshold
 rejects Variables

---
 chainerrl/links/empirical_normalization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 71b6a15..532b713 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -1,4 +1,5 @@
 import chainer
+from chainer import functions as F
 import numpy as np
 
 
@@ -104,7 +105,9 @@ class EmpiricalNormalization(chainer.Link):
 
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
-            normalized = xp.clip(
+            clip = F.clip if isinstance(normalized, chainer.Variable) \
+                else xp.clip
+            normalized = clip(
                 normalized, -self.clip_threshold, self.clip_threshold)
         return normalized
 
-- 
2.43.0


From 29804f5f142166efee5faff154a3abbc0e1662ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 30/41] fix: agents saved before their first update load into
 usable optimizers

---
 chainerrl/agent.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..2522ec3 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -9,13 +9,15 @@ import warnings
 
 
 def load_npz_no_strict(filename, obj):
-    try:
-        serializers.load_npz(filename, obj)
-    except KeyError as e:
-        warnings.warn(repr(e))
-        with numpy.load(filename) as f:
-            d = serializers.NpzDeserializer(f, strict=False)
-            d.load(obj)
+    # A strict load that fails on an optimizer saved before its first update
+    # would leave a state of a wrong shape behind.
+    serializers.load_npz(filename, obj, strict=False)
+    current = serializers.DictionarySerializer()
+    current.save(obj)
+    with numpy.load(filename) as f:
+        missing = sorted(set(current.target) - set(f.files))
+    if missing:
+        warnings.warn('{} are not in {}'.format(missing, filename))
 
 
 class Agent(object, metaclass=ABCMeta):
-- 
2.43.0


From 1923c6ed5964aed80af6ea8d1ddef58dd909417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 31/41] fix: persistent values of links in a Sequential with
 functions can be shared

---
 chainerrl/misc/async_.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 480e721..58709a5 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -50,8 +50,11 @@ def _set_persistent_values_recursively(link, persistent_name, shared_array):
             _set_persistent_values_recursively(
                 getattr(link, child_name), remaining, shared_array)
         else:
+            # chainer.Sequential is indexed by layers, which are not always
+            # links, so its children are looked up instead.
             _set_persistent_values_recursively(
-                link[int(child_name)], remaining, shared_array)
+                list(link.children())[int(child_name)], remaining,
+                shared_array)
 
 
 def set_shared_params(a, b):
-- 
2.43.0


From fad08c04d1903b4535b371bf7e872cf6adc968d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 32/41] fix: optimizer states of float64 parameters can be
 shared

---
 chainerrl/misc/async_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 58709a5..a543e10 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -152,8 +152,8 @@ def extract_states_as_shared_arrays(optimizer):
         ensure_initialized_update_rule(param)
         state = param.update_rule.state
         for state_name, state_val in state.items():
-            shared_arrays[param_name][
-                state_name] = mp.RawArray('f', state_val.ravel())
+            shared_arrays[param_name][state_name] = mp.RawArray(
+                state_val.dtype.char, state_val.ravel())
     return shared_arrays
 
 
-- 
2.43.0


From 5b781536a377e5bc470cbe538dec4ad504a2ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 33/41] fix: let FCGaussianPolicyWithFixedCovariance take
 variances of any float type

A float64 ndarray of variances (NumPy's default) gave a policy whose sample()
and log_prob() failed because mean and variance had different types.
---
 chainerrl/policies/gaussian_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/policies/gaussian_policy.py b/chainerrl/policies/gaussian_policy.py
index 005641e..4ec0c76 100644
--- a/chainerrl/policies/gaussian_policy.py
+++ b/chainerrl/policies/gaussian_policy.py
@@ -211,7 +211,7 @@ class FCGaussianPolicyWithFixedCovariance(links.Sequence, Policy):
         if np.isscalar(var):
             self.var = np.full(action_size, var, dtype=np.float32)
         else:
-            self.var = var
+            self.var = var.astype(np.float32)
         layers = []
         if n_hidden_layers > 0:
             # Input to hidden
-- 
2.43.0


From 01599e0a3a32d24c0c02c405348f1661f849c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 34/41] fix: use eps of NormalizedRewardFilter as the least
 variance

The variance was capped at eps instead, so the filter divided by zero as long
as all rewards were zero.
---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From b6c928de982f1e489dc4f4f2999ee411b87e1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 35/41] fix: recurrent PPO and TRPO fail when minibatches do
 not divide the data

Batch training collects whole rounds of environment steps, so the amount of
data is not always a multiple of the minibatch size; the last minibatch of an
epoch is now smaller instead of popping from an empty list.
---
 chainerrl/agents/ppo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 6ce29fc..bc8ab55 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -156,7 +156,8 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
     while stack:
         subset = []
         count = 0
-        while count < n_items:
+        # The last subset has less items if the total is not a multiple
+        while stack and count < n_items:
             sequence = stack.pop()
             subset.append(sequence)
             count += len(sequence)
@@ -167,7 +168,7 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
             assert n_exceeds > 0
             subset[-1] = sequence_to_split[:-n_exceeds]
             stack.append(sequence_to_split[-n_exceeds:])
-        assert sum(len(seq) for seq in subset) == n_items
+        assert sum(len(seq) for seq in subset) == min(count, n_items)
         yield subset
 
 
-- 
2.43.0


From b21d6f42545bd6557e88d11b96efc0b5ad965b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 36/41] fix: target networks are evaluated in training mode

Assigning __call__ to an instance has no effect on calls, so neither
disable_train nor call_test kept target networks with dropout or batch
normalization out of training mode.
---
 chainerrl/agents/al.py              |  2 +-
 chainerrl/agents/categorical_dqn.py |  2 +-
 chainerrl/agents/ddpg.py            | 21 +++++----------------
 chainerrl/agents/double_pal.py      |  2 +-
 chainerrl/agents/dpp.py             |  2 +-
 chainerrl/agents/dqn.py             |  9 +--------
 chainerrl/agents/iqn.py             |  2 +-
 chainerrl/agents/pal.py             |  2 +-
 chainerrl/agents/pgt.py             |  6 ++----
 9 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/chainerrl/agents/al.py b/chainerrl/agents/al.py
index e7719f0..2978a8f 100644
--- a/chainerrl/agents/al.py
+++ b/chainerrl/agents/al.py
@@ -39,7 +39,7 @@ class AL(dqn.DQN):
         # Compute target values
         batch_next_state = exp_batch['next_state']
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
diff --git a/chainerrl/agents/categorical_dqn.py b/chainerrl/agents/categorical_dqn.py
index 1d4a649..c21a890 100644
--- a/chainerrl/agents/categorical_dqn.py
+++ b/chainerrl/agents/categorical_dqn.py
@@ -168,7 +168,7 @@ class CategoricalDQN(dqn.DQN):
         batch_q = qout.evaluate_actions_as_distribution(batch_actions)
         assert batch_q.shape == (batch_size, n_atoms)
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             batch_q_target = self._compute_target_values(exp_batch)
             assert batch_q_target.shape == (batch_size, n_atoms)
 
diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 3b0da0b..80bafb7 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -16,16 +16,6 @@ from chainerrl.replay_buffer import batch_experiences
 from chainerrl.replay_buffer import ReplayUpdater
 
 
-def disable_train(chain):
-    call_orig = chain.__call__
-
-    def call_test(self, x):
-        with chainer.using_config('train', False):
-            return call_orig(self, x)
-
-    chain.__call__ = call_test
-
-
 class DDPGModel(chainer.Chain, RecurrentChainMixin):
 
     def __init__(self, policy, q_func):
@@ -135,8 +125,6 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         self.last_state = None
         self.last_action = None
         self.target_model = copy.deepcopy(self.model)
-        disable_train(self.target_model['q_function'])
-        disable_train(self.target_model['policy'])
         self.average_q = 0
         self.average_actor_loss = 0.0
         self.average_critic_loss = 0.0
@@ -178,7 +166,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_actions = batch['action']
         batchsize = len(batch_rewards)
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             # Target policy observes s_{t+1}
             next_actions = self.target_policy(
                 batch_next_state).sample()
@@ -281,9 +269,10 @@ class DDPG(AttributeSavingMixin, BatchAgent):
 
             # Since the target model is evaluated one-step ahead,
             # its internal states need to be updated
-            self.target_q_function.update_state(
-                batches[0]['state'], batches[0]['action'])
-            self.target_policy(batches[0]['state'])
+            with chainer.using_config('train', False):
+                self.target_q_function.update_state(
+                    batches[0]['state'], batches[0]['action'])
+                self.target_policy(batches[0]['state'])
 
             # Update critic through time
             critic_loss = 0
diff --git a/chainerrl/agents/double_pal.py b/chainerrl/agents/double_pal.py
index 75165e0..69c20db 100644
--- a/chainerrl/agents/double_pal.py
+++ b/chainerrl/agents/double_pal.py
@@ -23,7 +23,7 @@ class DoublePAL(pal.PAL):
 
         # Compute target values
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             batch_next_state = exp_batch['next_state']
             if self.recurrent:
                 next_qout, _ = self.model.n_step_forward(
diff --git a/chainerrl/agents/dpp.py b/chainerrl/agents/dpp.py
index d82a3de..0e2679b 100644
--- a/chainerrl/agents/dpp.py
+++ b/chainerrl/agents/dpp.py
@@ -52,7 +52,7 @@ class AbstractDPP(DQN, metaclass=ABCMeta):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             # Compute target values
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
diff --git a/chainerrl/agents/dqn.py b/chainerrl/agents/dqn.py
index 2c74e1c..d8d6a77 100644
--- a/chainerrl/agents/dqn.py
+++ b/chainerrl/agents/dqn.py
@@ -214,13 +214,6 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         """Synchronize target network with current network."""
         if self.target_model is None:
             self.target_model = copy.deepcopy(self.model)
-            call_orig = self.target_model.__call__
-
-            def call_test(self_, x):
-                with chainer.using_config('train', False):
-                    return call_orig(self_, x)
-
-            self.target_model.__call__ = call_test
         else:
             synchronize_parameters(
                 src=self.model,
@@ -322,7 +315,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             batch_q_target = F.reshape(
                 self._compute_target_values(exp_batch),
                 (batch_size, 1))
diff --git a/chainerrl/agents/iqn.py b/chainerrl/agents/iqn.py
index 1ca3f8c..9cbb2d2 100644
--- a/chainerrl/agents/iqn.py
+++ b/chainerrl/agents/iqn.py
@@ -377,7 +377,7 @@ class IQN(dqn.DQN):
                 chainer.Variable: Scalar loss.
         """
         y, taus = self._compute_y_and_taus(exp_batch)
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             t = self._compute_target_values(exp_batch)
 
         eltwise_loss = compute_eltwise_huber_quantile_loss(y, t, taus)
diff --git a/chainerrl/agents/pal.py b/chainerrl/agents/pal.py
index 6f636fa..c324c89 100644
--- a/chainerrl/agents/pal.py
+++ b/chainerrl/agents/pal.py
@@ -37,7 +37,7 @@ class PAL(dqn.DQN):
 
         # Compute target values
         batch_next_state = exp_batch['next_state']
-        with chainer.no_backprop_mode():
+        with chainer.no_backprop_mode(), chainer.using_config('train', False):
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
diff --git a/chainerrl/agents/pgt.py b/chainerrl/agents/pgt.py
index 63e33da..3cbc73e 100644
--- a/chainerrl/agents/pgt.py
+++ b/chainerrl/agents/pgt.py
@@ -7,7 +7,6 @@ import chainer.functions as F
 
 from chainerrl.agent import Agent
 from chainerrl.agent import AttributeSavingMixin
-from chainerrl.agents.ddpg import disable_train
 from chainerrl.misc.batch_states import batch_states
 from chainerrl.misc.copy_param import synchronize_parameters
 from chainerrl.recurrent import Recurrent
@@ -107,8 +106,6 @@ class PGT(AttributeSavingMixin, Agent):
         self.last_state = None
         self.last_action = None
         self.target_model = copy.deepcopy(self.model)
-        disable_train(self.target_model['q_function'])
-        disable_train(self.target_model['policy'])
         self.average_q = 0
         self.average_actor_loss = 0.0
         self.average_critic_loss = 0.0
@@ -152,7 +149,8 @@ class PGT(AttributeSavingMixin, Agent):
         # Update Q-function
         def compute_critic_loss():
 
-            with chainer.no_backprop_mode():
+            with chainer.no_backprop_mode(), \
+                    chainer.using_config('train', False):
                 pout = self.target_policy(batch_next_state)
                 next_actions = pout.sample()
                 next_q = self.target_q_function(batch_next_state, next_actions)
-- 
2.43.0


From 4afec5a02bf29a6a16a4975b812f4db71e37818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 37/41] fix: PCL applies importance weights to wrong episodes

---
 chainerrl/agents/pcl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a6f4b37..b4b5faa 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -279,7 +279,11 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             episodes, weights = episodes
         else:
             weights = [1] * len(episodes)
-        sorted_episodes = list(reversed(sorted(episodes, key=len)))
+        # Sort episodes by length, together with their weights
+        sorted_indices = list(reversed(sorted(
+            range(len(episodes)), key=lambda i: len(episodes[i]))))
+        sorted_episodes = [episodes[i] for i in sorted_indices]
+        weights = [weights[i] for i in sorted_indices]
         max_epi_len = len(sorted_episodes[0])
 
         with state_reset(self.model):
-- 
2.43.0


From 73b95730d07cfd10bbcbc3f06c523bfd179e4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 38/41] fix: A2C ignores act_deterministically in batch
 evaluation

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..e1c13a9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From bb84bbfd2aba63fc07b26cf2662317d000bc2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 39/41] fix: ALE can start an episode from a finished game

---
 chainerrl/envs/ale.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainerrl/envs/ale.py b/chainerrl/envs/ale.py
index 61fe383..15bde6c 100644
--- a/chainerrl/envs/ale.py
+++ b/chainerrl/envs/ale.py
@@ -221,6 +221,9 @@ class ALE(env.Env):
             n_nullops = np.random.randint(0, self.max_start_nullops + 1)
             for _ in range(n_nullops):
                 self.ale.act(0)
+                # An episode must not start from a finished game
+                if self.ale.game_over():
+                    self.ale.reset_game()
 
         self._reward = 0
 
-- 
2.43.0


From 4176c1df142d3cddb0f0ce8e2740475343ea006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 40/41] fix: a pretrained model is marked as stored before it
 is extracted

---
 chainerrl/misc/pretrained_models.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/pretrained_models.py b/chainerrl/misc/pretrained_models.py
index 09dd62c..7f00d43 100644
--- a/chainerrl/misc/pretrained_models.py
+++ b/chainerrl/misc/pretrained_models.py
@@ -124,9 +124,16 @@ def download_and_store_model(alg, url, env, model_type):
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath,
                                                         file))
+            try:
+                with zipfile.ZipFile(cache_path, 'r') as zip_ref:
+                    zip_ref.extractall(root)
+            except zipfile.BadZipFile:
+                # Do not keep a broken archive so it is downloaded again
+                os.remove(cache_path)
+                raise
+            # The archive marks the model as stored, so it must be moved
+            # there only after the model is extracted
             os.rename(cache_path, path)
-            with zipfile.ZipFile(path, 'r') as zip_ref:
-                zip_ref.extractall(root)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From 4c8f0b1fcd8f089f66153cec9243263eb7434291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 41/41] fix: evaluate A2C, A3C, ACER, NSQ, PCL and REINFORCE in
 test mode

Evaluation with dropout or batch normalization ran in training mode: actions
were noisy or computed with statistics of a batch of one, and running averages
changed.
---
 chainerrl/agents/a2c.py       | 4 ++--
 chainerrl/agents/a3c.py       | 2 +-
 chainerrl/agents/acer.py      | 2 +-
 chainerrl/agents/nsq.py       | 9 +++++----
 chainerrl/agents/pcl.py       | 2 +-
 chainerrl/agents/reinforce.py | 2 +-
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index e1c13a9..88629db 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -245,7 +245,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def batch_act(self, batch_obs):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
                 action = pout.most_probable.array
@@ -281,7 +281,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         raise RuntimeError('A2C does not support non-batch training')
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/a3c.py b/chainerrl/agents/a3c.py
index 7385c07..dcb49a7 100644
--- a/chainerrl/agents/a3c.py
+++ b/chainerrl/agents/a3c.py
@@ -268,7 +268,7 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], np, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index 9256c3f..e25819b 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -650,7 +650,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = np.expand_dims(self.phi(obs), 0)
             action_distrib, _, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/nsq.py b/chainerrl/agents/nsq.py
index 7455244..3021e8a 100644
--- a/chainerrl/agents/nsq.py
+++ b/chainerrl/agents/nsq.py
@@ -157,10 +157,11 @@ class NSQ(AttributeSavingMixin, AsyncAgent):
         return action
 
     def act(self, obs):
-        statevar = self.batch_states([obs], np, self.phi)
-        qout = self.q_function(statevar)
-        self.logger.debug('act action_value: %s', qout)
-        return qout.greedy_actions.array[0]
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
+            statevar = self.batch_states([obs], np, self.phi)
+            qout = self.q_function(statevar)
+            self.logger.debug('act action_value: %s', qout)
+            return qout.greedy_actions.array[0]
 
     def stop_episode_and_train(self, state, reward, done=False):
         self.past_rewards[self.t - 1] = reward
diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index b4b5faa..b2cf782 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -434,7 +434,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             action_distrib, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/reinforce.py b/chainerrl/agents/reinforce.py
index 8ca38c4..9fcc14c 100644
--- a/chainerrl/agents/reinforce.py
+++ b/chainerrl/agents/reinforce.py
@@ -93,7 +93,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         return action
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_obs = self.batch_states([obs], self.xp, self.phi)
             action_distrib = self.model(batch_obs)
             if self.act_deterministically:
-- 
2.43.0

