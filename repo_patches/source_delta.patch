From 382dadeba46a9b57b63f7668a6fd2b7985a24396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 01/16] fix: tail free sampling failed on exactly two
 candidates

There is no second derivative to look at with two entries, so there is
nothing to prune. The sampler returned an internal error instead.
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..7abcb95 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() <= 2 {
             return Ok(logits);
         }
 
-- 
2.43.0


From a1965342f230e6c3c6e75099afc8988fac76f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 02/16] fix: locally typical sampling failed when a token had
 zero probability

0 * ln(0) is NaN, which poisoned the entropy: banning a token with a -inf bias
(or an underflowing probability) made the sampler return an internal error.
The contribution of such a token to the entropy is zero.
---
 src/samplers/locally_typical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..5770023 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -69,6 +69,7 @@ impl Sampler for SampleLocallyTypical {
 
         let ent = logits
             .iter()
+            .filter(|l| l.prob != 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From 60231286eefd04ef6046f78bfd4b97fd0d217b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 03/16] fix: mirostat 2 kept one token when no token exceeded
 mu

When the surprise of every token is within mu nothing should be pruned, but
the sampler truncated to the most likely token.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From 26fe76cf321c0c4b3ea4870fed68567b16645c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 04/16] fix: mirostat 1 computed k with the wrong formula

The paper (and llama.cpp) use b_i = ln(p_i / p_{i+1}) and
k = (eps * 2^mu / (1 - N^-eps))^(1/s). The log was missing, 2^mu was written
as mu^2 and the denominator lost its parentheses, so the sampler never reached
the target surprise: mu grew without bound.
---
 src/samplers/mirostat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..2106097 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
@@ -143,7 +143,7 @@ impl Sampler for SampleMirostat1 {
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
         let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+            (epsilon_hat * 2f32.powf(mu) / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From ed56cb462d14c0844fe4e73116032c67b4545c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 05/16] fix: an option whose name is a prefix of another one
 was unreachable

The `m` option of Mirostat 1 was always reported as ambiguous with `mu`.
---
 src/configure/metadata.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..e9017c5 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,15 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+        // An exact match wins, otherwise an option with a name that is a prefix
+        // of another option's name could never be selected.
+        if let Some((idx, (omd, acc))) = self
+            .iter()
+            .enumerate()
+            .find(|(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From f0d40bb5b177fd3eadc4588eb9ba5d165e84fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 06/16] fix: the top-a sampler reported the name of the top-p
 sampler

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 4ab009a6ee467b388da349e40536e4e7456036a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 07/16] fix: sample_prepend never reached boxed or shared
 samplers

The wrappers did not forward it, so they used the no-op default. A chain holds
its samplers boxed, so no sampler in a chain ever had its hook called.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From cb824fd421b8819d1099f704c3be993fda645072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 08/16] fix: negative temperature left reversed logits flagged
 as sorted

---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..6e6b622 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From 631a4156f030484927af091ae95895d1cd0827d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 09/16] fix: ensure_softmax flagged unsorted logits as sorted

Logits with the softmax flag set and the sorted flag cleared (someone
permuted them and said so) were marked as sorted without being sorted.
---
 src/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 0396812..93ad44e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -246,12 +246,11 @@ impl Logits {
 
     /// Ensure the softmax function has been applied to the [Logits].
     pub fn ensure_softmax(&mut self) -> Result<&mut Self> {
+        self.ensure_sorted()?;
         if self.is_empty() || self.has_softmax {
             self.has_softmax = true;
-            self.sorted = true;
             return Ok(self);
         }
-        self.ensure_sorted()?;
         let max_l = self[0].logit;
         let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
             l.prob = (l.logit - max_l).exp();
-- 
2.43.0


From 170856c38dfe3310e86eb3c96f48dac3da784525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 10/16] fix: try_from_iter_top_k panicked or ran out of memory
 with a large k

It allocated room for k entries no matter how many values there are.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 93ad44e..17d7838 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -170,7 +170,7 @@ impl Logits {
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::new(), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From 11c1b99fe62fd5cfd31dc41e66787d55d69873e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 11/16] fix: sorting logits containing NaN could panic

The comparison is not a total order when there are NaN values (for example
from an infinite bias on an infinite logit), which slice sorts may answer with
a panic. Report the error before sorting.
---
 src/samplers/locally_typical.rs | 6 ++++++
 src/types.rs                    | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index 5770023..5533f69 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -76,6 +76,12 @@ impl Sampler for SampleLocallyTypical {
             .iter()
             .map(|l| (l.clone(), (-l.prob.ln() - ent).abs()))
             .collect::<Vec<_>>();
+        // Sorting may panic if there are NaN values.
+        if shifted.iter().any(|(_logit, score)| score.is_nan()) {
+            Err(SamplerError::InternalError(String::from(
+                "Cannot order logits with NaN probability",
+            )))?
+        }
         {
             let mut sort_err = Ok(());
             shifted.sort_by(|a, b| {
diff --git a/src/types.rs b/src/types.rs
index 17d7838..cd5b331 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -230,6 +230,13 @@ impl Logits {
             return Ok(self);
         }
 
+        // NaN has no place in the order and sorting may panic if it's there.
+        if self.iter().any(|l| l.logit.is_nan()) {
+            Err(LogitsError::InternalError(String::from(
+                "Cannot sort logits containing NaN",
+            )))?
+        }
+
         let mut sort_err = Ok(());
         self.logits.as_mut_slice().sort_by(|a, b| {
             b.logit.partial_cmp(&a.logit).unwrap_or_else(|| {
-- 
2.43.0


From e08583d3ffe2feb6090ecf12afc65c5bef8a4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 12/16] fix: sequence repetition overflowed with a very large
 min_length

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..12fd7b0 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen / 2 < min_len {
         return Vec::default();
     }
 
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() / 2 < min_length {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 11836d53d9f3969a69a5e658dba1f3adb0ba7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 13/16] fix: sequence repetition merged one token more than
 max_merge allows

As documented, 0 and 1 deactivate merging and 2 lets 1, 6, 6, 3 match
1, 2, 3. A value of 1 already did the latter (and the largest value
overflowed).
---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 12fd7b0..832f2a9 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From 2b74b400828a151012e9605e531e8c72cfe5e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 14/16] fix: a chain could return the token another thread
 sampled

When a chain contains a sampler shared with other threads it ran it and fetched
its token while holding the lock separately for each step, so the token could
be from another thread's use of the sampler in between.
---
 src/chain.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..d5106a8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,9 +47,10 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
-                let new_logits = sampler.sample(res, logits)?;
-                self.token = sampler.sampled_token_id();
-                Ok(new_logits)
+                // Not sample() followed by sampled_token_id(): if the sampler is shared
+                // with other threads then those could run it in between.
+                self.token = sampler.sample_token(res, logits)?;
+                Ok(logits)
             })
     }
 
-- 
2.43.0


From 9e920704a3c0e0bdb0fd07ca3552f1d32b551cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 15/16] fix: random selection panicked when the probabilities
 sum to infinity

---
 src/samplers/rand_distrib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/samplers/rand_distrib.rs b/src/samplers/rand_distrib.rs
index be6b0ef..b7d4f25 100644
--- a/src/samplers/rand_distrib.rs
+++ b/src/samplers/rand_distrib.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use rand::distributions::{Distribution, WeightedIndex};
+use rand::distributions::{Distribution, WeightedError, WeightedIndex};
 
 use crate::{configure::*, types::*};
 
@@ -41,6 +41,12 @@ impl Sampler for SampleRandDistrib {
         logits.ensure_softmax().map_err(|e| {
             SamplerError::InternalError(format!("Failed to ensure softmax before sampling: {}", e))
         })?;
+        // WeightedIndex panics instead of failing when the sum of the weights isn't finite.
+        if !logits.iter().map(|l| l.prob).sum::<f32>().is_finite() {
+            return Err(SamplerError::RandWeightedError(
+                WeightedError::InvalidWeight,
+            ));
+        }
         let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
             .map_err(SamplerError::RandWeightedError)?;
         res.with_rng_mut(&mut |r| {
-- 
2.43.0


From cb72581edcf752e9e00f0b3c97ea23559fe39b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 16/16] fix: documented defaults of min-p, temperature and
 sequence repetition were not theirs

---
 src/samplers/min_p.rs               | 2 +-
 src/samplers/sequence_repetition.rs | 2 +-
 src/samplers/temperature.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/samplers/min_p.rs b/src/samplers/min_p.rs
index 9b15999..580b519 100644
--- a/src/samplers/min_p.rs
+++ b/src/samplers/min_p.rs
@@ -15,7 +15,7 @@ use crate::{configure::*, types::*};
 ///
 /// **Parameters**:
 /// - `min_keep`: Minimum number of entries to keep. (default: `1`)
-/// - `p`: Threshold value. Use `0.0` to disable. (default: `0.9`)
+/// - `p`: Threshold value. Use `0.0` to disable. (default: `0.05`)
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct SampleMinP {
     pub(crate) p: L,
diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 832f2a9..1bb7bc2 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -24,7 +24,7 @@ use crate::{configure::*, types::*};
 ///
 /// **Parameters**:
 /// - `last_n`: Number of last tokens to consider. (default: `64`)
-/// - `min_length`: The minimum length for a sequence to match. (default: `0`)
+/// - `min_length`: The minimum length for a sequence to match. (default: `4`)
 /// - `flat_penalty`: Flat penalty to apply to the token that would continue the matched sequence. (default: `0.0`)
 /// - `stacking_penalty`: Stacking penalty to the token that would continue the matched sequence,
 ///     it is multiplied by the sequence length. (default: `0.0`)
diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index 6e6b622..3d2dfdf 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -9,7 +9,7 @@ use crate::{configure::*, types::*};
 /// - Modifies logits
 ///
 /// **Parameters**:
-/// - `temperature`: Temperature value. (default: `0.8`)
+/// - `temperature`: Temperature value. (default: `1.0`)
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct SampleTemperature {
     pub(crate) temperature: L,
-- 
2.43.0

