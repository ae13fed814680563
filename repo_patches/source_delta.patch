From d65ae698c577e39b6ebeec814d6ecd66e3a1ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 01/79] fix: draw posterior resamplings from bilby's seedable
 generator

pandas.DataFrame.sample, dynesty/nestle resample_equal used numpy's global
(or a fresh) generator, so runs seeded with bilby.core.utils.random.seed were
not reproducible.
---
 bilby/core/result.py          | 5 +++--
 bilby/core/sampler/dynesty.py | 4 +++-
 bilby/core/sampler/nestle.py  | 5 ++++-
 bilby/gw/prior.py             | 4 ++--
 bilby/gw/result.py            | 6 +++---
 bilby/hyper/likelihood.py     | 3 ++-
 cli_bilby/bilby_result.py     | 3 ++-
 7 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..85c2cf8 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1402,7 +1402,7 @@ class Result(object):
         fig, ax = plt.subplots()
         logger.info('Plotting {} draws'.format(ndraws))
         for _ in range(ndraws):
-            s = model_posterior.sample().to_dict('records')[0]
+            s = model_posterior.sample(random_state=random.rng).to_dict('records')[0]
             ax.plot(xsmooth, model(xsmooth, **s), alpha=0.25, lw=0.1, color='r',
                     label=draws_label)
         try:
@@ -1854,7 +1854,8 @@ class ResultList(list):
         combined_posteriors = pd.concat(posteriors, ignore_index=True)
 
         if shuffle:
-            result.posterior = combined_posteriors.sample(len(combined_posteriors))
+            result.posterior = combined_posteriors.sample(
+                len(combined_posteriors), random_state=random.rng)
         else:
             result.posterior = combined_posteriors
 
diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 539531c..50f0229 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -633,7 +633,9 @@ class Dynesty(NestedSampler):
                 f"Rejection sampling nested samples to obtain {sum(keep)} posterior samples"
             )
         else:
-            self.result.samples = dynesty.utils.resample_equal(out.samples, weights)
+            self.result.samples = dynesty.utils.resample_equal(
+                out.samples, weights, rstate=rng
+            )
             self.result.log_likelihood_evaluations = self.reorder_loglikelihoods(
                 unsorted_loglikelihoods=out.logl,
                 unsorted_samples=out.samples,
diff --git a/bilby/core/sampler/nestle.py b/bilby/core/sampler/nestle.py
index 75d93bf..c227b16 100644
--- a/bilby/core/sampler/nestle.py
+++ b/bilby/core/sampler/nestle.py
@@ -1,5 +1,6 @@
 from pandas import DataFrame
 
+from ..utils import random
 from .base_sampler import NestedSampler, signal_wrapper
 
 
@@ -85,7 +86,9 @@ class Nestle(NestedSampler):
         print("")
 
         self.result.sampler_output = out
-        self.result.samples = nestle.resample_equal(out.samples, out.weights)
+        self.result.samples = nestle.resample_equal(
+            out.samples, out.weights, rstate=random.rng
+        )
         self.result.nested_samples = DataFrame(
             out.samples, columns=self.search_parameter_keys
         )
diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..67e6797 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -74,7 +74,7 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
                                                        prior_names=['chirp_mass', 'mass_ratio', 'mass_1', 'mass_2']))
     jacobian = posterior["mass_1"] ** 2 / posterior["chirp_mass"]
     weights = jacobian * weights
-    result.posterior = posterior.sample(frac=fraction, weights=weights)
+    result.posterior = posterior.sample(frac=fraction, weights=weights, random_state=random.rng)
 
     logger.info("Resampling posterior to flat-in-component mass")
     effective_sample_size = sum(weights)**2 / sum(weights**2)
@@ -86,7 +86,7 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
             "biased results"
             .format(n_posterior, fraction, effective_sample_size / n_posterior)
         )
-    result.posterior = posterior.sample(frac=fraction, weights=weights, replace=True)
+    result.posterior = posterior.sample(frac=fraction, weights=weights, replace=True, random_state=random.rng)
     result.meta_data["reweighted_to_flat_in_component_mass"] = True
     return result
 
diff --git a/bilby/gw/result.py b/bilby/gw/result.py
index cc9f97e..a343047 100644
--- a/bilby/gw/result.py
+++ b/bilby/gw/result.py
@@ -6,7 +6,7 @@ import numpy as np
 
 from ..core.result import Result as CoreResult
 from ..core.utils import (
-    infft, logger, check_directory_exists_and_if_not_mkdir,
+    infft, logger, random, check_directory_exists_and_if_not_mkdir,
     latex_plot_format, safe_file_dump, safe_save_figure,
 )
 from .utils import plot_spline_pos, spline_angle_xform, asd_from_freq_series
@@ -354,7 +354,7 @@ class CompactBinaryCoalescenceResult(CoreResult):
             )
             samples = self.posterior
         else:
-            samples = self.posterior.sample(n_samples, replace=False)
+            samples = self.posterior.sample(n_samples, replace=False, random_state=random.rng)
 
         if start_time is None:
             start_time = - 0.4
@@ -757,7 +757,7 @@ class CompactBinaryCoalescenceResult(CoreResult):
 
         if maxpts is not None and maxpts < len(data):
             logger.info('Taking random subsample of chain')
-            data = data.sample(maxpts)
+            data = data.sample(maxpts, random_state=random.rng)
 
         default_obj_filename = os.path.join(self.outdir, '{}_skypost.obj'.format(self.label))
 
diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index c5ea8b0..985c8a9 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -6,6 +6,7 @@ import numpy as np
 from ..core.likelihood import Likelihood
 from .model import Model
 from ..core.prior import PriorDict
+from ..core.utils import random
 
 
 class HyperparameterLikelihood(Likelihood):
@@ -99,7 +100,7 @@ class HyperparameterLikelihood(Likelihood):
         logging.debug('Downsampling to {} samples per posterior.'.format(
             self.max_samples))
         for posterior in self.posteriors:
-            temp = posterior.sample(self.max_samples)
+            temp = posterior.sample(self.max_samples, random_state=random.rng)
             if self.sampling_prior is not None:
                 temp['prior'] = self.sampling_prior.prob(temp, axis=0)
             elif 'log_prior' in temp.keys():
diff --git a/cli_bilby/bilby_result.py b/cli_bilby/bilby_result.py
index 8ef7630..43f6f87 100644
--- a/cli_bilby/bilby_result.py
+++ b/cli_bilby/bilby_result.py
@@ -172,7 +172,8 @@ def print_matches(results_list, args):
 
 def apply_max_samples(result, args):
     if len(result.posterior) > args.max_samples:
-        result.posterior = result.posterior.sample(args.max_samples).sort_index()
+        result.posterior = result.posterior.sample(
+            args.max_samples, random_state=bilby.core.utils.random.rng).sort_index()
     return result
 
 
-- 
2.43.0


From b463aed42af4351f41db3d8b88ee79b1c6010ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 02/79] fix: EnsembleWalk looks up the random generator when
 drawing

The default argument bound the generator that existed at import time, so
bilby.core.utils.random.seed had no effect on it.
---
 bilby/core/sampler/proposal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index d23d19b..e3ac884 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -202,7 +202,7 @@ class NormJump(JumpProposal):
 class EnsembleWalk(JumpProposal):
     def __init__(
         self,
-        random_number_generator=random.rng.uniform,
+        random_number_generator=None,
         n_points=3,
         priors=None,
         **random_number_generator_args
@@ -213,7 +213,8 @@ class EnsembleWalk(JumpProposal):
         Parameters
         ==========
         random_number_generator: func, optional
-            A random number generator. Default is random.random
+            A random number generator. Default is the :code:`uniform` method of
+            the current bilby random number generator.
         n_points: int, optional
             Number of points in the ensemble to average over. Default is 3.
         priors:
@@ -227,6 +228,9 @@ class EnsembleWalk(JumpProposal):
         self.random_number_generator_args = random_number_generator_args
 
     def __call__(self, sample, **kwargs):
+        random_number_generator = self.random_number_generator
+        if random_number_generator is None:
+            random_number_generator = random.rng.uniform
         subset = random.rng.choice(kwargs["coordinates"], self.n_points, replace=False)
         for i in range(len(subset)):
             subset[i] = Sample.from_external_type(
@@ -234,7 +238,7 @@ class EnsembleWalk(JumpProposal):
             )
         center_of_mass = self.get_center_of_mass(subset)
         for x in subset:
-            sample += (x - center_of_mass) * self.random_number_generator(
+            sample += (x - center_of_mass) * random_number_generator(
                 **self.random_number_generator_args
             )
         return super(EnsembleWalk, self).__call__(sample)
-- 
2.43.0


From 0de53d0350b0aca068faefdcffa5c0455ed6e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 03/79] fix: seed each parallel bilby_mcmc step

Pool workers are forked with one copy of the generator, so parallel chains
consumed identical random streams and ignored the state of the parent.
---
 bilby/bilby_mcmc/sampler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..b02b086 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -803,7 +803,10 @@ class BilbyPTMCMCSampler(object):
 
     def step_all_chains(self):
         if self.pool:
-            self.sampler_list = self.pool.map(call_step, self.sampler_list)
+            seeds = random.generate_seeds(len(self.sampler_list))
+            self.sampler_list = self.pool.map(
+                call_step, zip(self.sampler_list, seeds)
+            )
         else:
             for ii, sampler in enumerate(self.sampler_list):
                 self.sampler_list[ii] = sampler.step()
@@ -1413,6 +1416,8 @@ def get_initial_maximimum_posterior_sample(beta):
 # Methods used to aid parallelisation:
 
 
-def call_step(sampler):
+def call_step(args):
+    sampler, seed = args
+    random.seed(seed)
     sampler = sampler.step()
     return sampler
-- 
2.43.0


From 0abaf896c46fa53d30eb6f0e58fdd452e46cf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 04/79] fix: seed density-estimate proposals and differential
 evolution

gaussian_kde.resample, GaussianMixture and differential_evolution drew from
numpy's global generator.
---
 bilby/bilby_mcmc/proposals.py   | 7 +++++--
 bilby/bilby_mcmc/sampler.py     | 4 +++-
 bilby/gw/likelihood/relative.py | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..12b6cdd 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples, seed=random.rng)))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -551,7 +551,10 @@ class GMMProposal(DensityEstimateProposal):
     def _fit(self, dataset):
         from sklearn.mixture import GaussianMixture
 
-        density = GaussianMixture(n_components=10)
+        density = GaussianMixture(
+            n_components=10,
+            random_state=np.random.RandomState(random.rng.integers(2**32 - 1)),
+        )
         density.fit(dataset.T)
         return density
 
diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index b02b086..74a7d1e 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1404,7 +1404,9 @@ def get_initial_maximimum_posterior_sample(beta):
 
         return -beta * likelihood.log_likelihood() - ln_prior
 
-    res = differential_evolution(neg_log_post, bounds, popsize=100, init="sobol")
+    res = differential_evolution(
+        neg_log_post, bounds, popsize=100, init="sobol", seed=random.rng
+    )
     if res.success:
         sample = {key: val for key, val in zip(search_parameter_keys, res.x)}
         logger.info(f"Initial maximum posterior estimate {sample}")
diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 2345b25..6825853 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -2,7 +2,7 @@ import numpy as np
 from scipy.optimize import differential_evolution
 
 from .base import GravitationalWaveTransient
-from ...core.utils import logger
+from ...core.utils import logger, random
 from ...core.prior.base import Constraint
 from ...core.prior import DeltaFunction
 from ..utils import noise_weighted_inner_product
@@ -258,6 +258,7 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
                                            iterations=5, maximization_kwargs=None):
         if maximization_kwargs is None:
             maximization_kwargs = dict()
+        maximization_kwargs = {"seed": random.rng, **maximization_kwargs}
         self.parameters.update(self.fiducial_parameters)
         self.parameters["fiducial"] = 0
         updated_parameters_list = self.get_parameter_list_from_dictionary(self.fiducial_parameters)
-- 
2.43.0


From 1facbfee8f262bffec6c8b3c980487715f94bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 05/79] fix: keep parameter order independent of set hashing

fill_priors and get_parameter_dictionary_from_list iterated a set of strings,
so the parameter order (and seeded draws) changed with PYTHONHASHSEED.
---
 bilby/core/prior/dict.py        | 2 +-
 bilby/gw/likelihood/relative.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..e1ff018 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -344,7 +344,7 @@ class PriorDict(dict):
 
         self.convert_floats_to_delta_functions()
 
-        missing_keys = set(likelihood.parameters) - set(self.keys())
+        missing_keys = [key for key in likelihood.parameters if key not in self]
 
         for missing_key in missing_keys:
             if not self.test_redundancy(missing_key):
diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 6825853..d0578d6 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -294,9 +294,9 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
 
     def get_parameter_dictionary_from_list(self, parameter_list):
         parameter_dictionary = dict(zip(self.parameters_to_be_updated, parameter_list))
-        excluded_parameter_keys = set(self.fiducial_parameters) - set(self.parameters_to_be_updated)
-        for key in excluded_parameter_keys:
-            parameter_dictionary[key] = self.fiducial_parameters[key]
+        for key in self.fiducial_parameters:
+            if key not in parameter_dictionary:
+                parameter_dictionary[key] = self.fiducial_parameters[key]
         return parameter_dictionary
 
     def get_parameter_list_from_dictionary(self, parameter_dict):
-- 
2.43.0


From 86638045e9a3c168ab40b3e0aafd0b941572c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 06/79] fix: PriorDict no longer modifies the dictionary it is
 built from

---
 bilby/core/prior/dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index e1ff018..201f1f9 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -207,6 +207,7 @@ class PriorDict(dict):
 
     def from_dictionary(self, dictionary):
         jpdkwargs = {}
+        dictionary = dict(dictionary)
         for key in list(dictionary.keys()):
             val = dictionary[key]
             if isinstance(val, Prior):
-- 
2.43.0


From 2a4e307c54abb013a231e65e5dd214d3a9f736ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 07/79] fix: constrained sampling leaves the caller's list of
 keys alone

---
 bilby/core/prior/dict.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 201f1f9..b11f486 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -449,9 +449,7 @@ class PriorDict(dict):
                     return sample
         else:
             needed = np.prod(size)
-            for key in keys.copy():
-                if isinstance(self[key], Constraint):
-                    del keys[keys.index(key)]
+            keys = [key for key in keys if not isinstance(self[key], Constraint)]
             all_samples = {key: np.array([]) for key in keys}
             _first_key = list(all_samples.keys())[0]
             while len(all_samples[_first_key]) < needed:
-- 
2.43.0


From 349f6075a200a43ead8ecf0520dd01b8831fb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/79] fix: reweight leaves the input result untouched

---
 bilby/core/result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 85c2cf8..858fe4b 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -338,9 +338,13 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     from scipy.special import logsumexp
 
     result = copy(result)
+    result.priors = copy(result.priors)
+    result.meta_data = copy(result.meta_data)
 
     if use_nested_samples:
-        result.posterior = result.nested_samples
+        result.posterior = result.nested_samples.copy()
+    else:
+        result.posterior = result.posterior.copy()
 
     nposterior = len(result.posterior)
     logger.info("Reweighting posterior with {} samples".format(nposterior))
-- 
2.43.0


From f33a557a75756b2ac3324c55462bd210be001547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 09/79] fix: plotting does not relabel the stored or passed
 labels

---
 bilby/core/result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 858fe4b..0b3561d 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -2062,7 +2062,7 @@ def plot_multiple(results, filename=None, labels=None, colours=None,
             linestyle = linestyles[i]
         else:
             linestyle = 'solid'
-        hist_kwargs = kwargs.get('hist_kwargs', dict())
+        hist_kwargs = dict(kwargs.get('hist_kwargs', dict()))
         hist_kwargs['color'] = c
         hist_kwargs["linestyle"] = linestyle
         kwargs["hist_kwargs"] = hist_kwargs
@@ -2234,10 +2234,10 @@ def make_pp_plot(results, filename=None, save=True, confidence_interval=[0.68, 0
 
 def sanity_check_labels(labels):
     """ Check labels for plotting to remove matplotlib errors """
-    for ii, lab in enumerate(labels):
-        if "_" in lab and "$" not in lab:
-            labels[ii] = lab.replace("_", "-")
-    return labels
+    return [
+        lab.replace("_", "-") if "_" in lab and "$" not in lab else lab
+        for lab in labels
+    ]
 
 
 class ResultError(Exception):
-- 
2.43.0


From 068d37cda0d90a4b6099ead76d0de62451beada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 10/79] fix: saving a result does not replace its
 sampler_kwargs

---
 bilby/core/result.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 0b3561d..21a7657 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -795,9 +795,10 @@ class Result(object):
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
-            for key in dictionary['sampler_kwargs']:
-                if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+            dictionary['sampler_kwargs'] = {
+                key: str(value) if hasattr(value, '__call__') else value
+                for key, value in dictionary['sampler_kwargs'].items()
+            }
 
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
-- 
2.43.0


From 99414b643bdfa191a6980e604be632dd161e8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 11/79] fix: HealPixMapPriorDist does not extend the caller's
 lists

---
 bilby/gw/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 67e6797..add1e20 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -1352,9 +1352,9 @@ class HealPixMapPriorDist(BaseJointPriorDist):
             bounds = bs
         if distance:
             if len(names) == 2:
-                names.append("distance")
+                names = list(names) + ["distance"]
             if len(bounds) == 2:
-                bounds.append([0, np.inf])
+                bounds = list(bounds) + [[0, np.inf]]
             self.distance = True
             self.prob, self.distmu, self.distsigma, self.distnorm = self.hp.read_map(
                 hp_file, field=range(4)
-- 
2.43.0


From 2e1b6ce5d3ff90f89c11d96e4876c3f63aa3cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 12/79] fix: flat-in-component-mass conversion leaves the input
 result untouched

---
 bilby/gw/prior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index add1e20..3ceda4d 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -60,8 +60,10 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
         BilbyPriorConversionError("No prior in the result: unable to convert")
 
     result = copy.copy(result)
-    priors = result.priors
-    old_priors = copy.copy(result.priors)
+    old_priors = result.priors
+    priors = copy.copy(old_priors)
+    result.priors = priors
+    result.meta_data = copy.copy(result.meta_data)
     posterior = result.posterior
 
     for key in ['chirp_mass', 'mass_ratio']:
-- 
2.43.0


From ec2f86de8d71db9ab8d22b098659ec3ff1126f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 13/79] fix: run_sampler does not add entries to the caller's
 meta_data

---
 bilby/core/sampler/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index ef65ce1..9261e27 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -246,6 +246,8 @@ def run_sampler(
     # Generate the meta-data if not given and append the likelihood meta_data
     if meta_data is None:
         meta_data = dict()
+    else:
+        meta_data = dict(meta_data)
     likelihood.label = label
     likelihood.outdir = outdir
     meta_data["likelihood"] = likelihood.meta_data
-- 
2.43.0


From 010e1fba1aad58e16e056bc4986aa857f96f54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 14/79] fix: distance reconstruction does not rescale the
 cached waveform

---
 bilby/gw/likelihood/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..c865433 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -653,8 +653,8 @@ class GravitationalWaveTransient(Likelihood):
         """
         self.parameters.update(self.get_sky_frame_parameters())
         if signal_polarizations is None:
-            signal_polarizations = \
-                self.waveform_generator.frequency_domain_strain(self.parameters)
+            signal_polarizations = copy.deepcopy(
+                self.waveform_generator.frequency_domain_strain(self.parameters))
 
         d_inner_h, h_inner_h = self._calculate_inner_products(signal_polarizations)
 
-- 
2.43.0


From 1305ae813aa03f0c05a7a6229070fbc46a39308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 15/79] fix: flat-in-component-mass conversion raises its
 configuration errors

---
 bilby/gw/prior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index 3ceda4d..6491888 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -50,14 +50,14 @@ def convert_to_flat_in_component_mass_prior(result, fraction=0.25):
     if getattr(result, "priors") is not None:
         for key in ['chirp_mass', 'mass_ratio']:
             if key not in result.priors.keys():
-                BilbyPriorConversionError("{} Prior not found in result object".format(key))
+                raise BilbyPriorConversionError("{} Prior not found in result object".format(key))
             if isinstance(result.priors[key], Constraint):
-                BilbyPriorConversionError("{} Prior should not be a Constraint".format(key))
+                raise BilbyPriorConversionError("{} Prior should not be a Constraint".format(key))
         for key in ['mass_1', 'mass_2']:
             if not isinstance(result.priors[key], Constraint):
-                BilbyPriorConversionError("{} Prior should be a Constraint Prior".format(key))
+                raise BilbyPriorConversionError("{} Prior should be a Constraint Prior".format(key))
     else:
-        BilbyPriorConversionError("No prior in the result: unable to convert")
+        raise BilbyPriorConversionError("No prior in the result: unable to convert")
 
     result = copy.copy(result)
     old_priors = result.priors
-- 
2.43.0


From 2033ac146827def663adc7884b417d06995ebe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 16/79] fix: setting one of the coupled time and frequency
 arrays updates the other

---
 bilby/core/series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..fbb9a57 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -54,6 +54,7 @@ class CoupledTimeAndFrequencySeries(object):
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
         self._frequency_array_updated = True
+        self._time_array_updated = False
 
     @property
     def time_array(self):
@@ -85,6 +86,7 @@ class CoupledTimeAndFrequencySeries(object):
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
         self._start_time = time_array[0]
         self._time_array_updated = True
+        self._frequency_array_updated = False
 
     @property
     def duration(self):
-- 
2.43.0


From 329889b9d834de4619db0626d9e3f6115932c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 17/79] fix: the frequency mask follows changes of the
 frequency array

---
 bilby/gw/detector/strain_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..79cf316 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -46,6 +46,7 @@ class InterferometerStrainData(object):
 
         self._frequency_mask_updated = False
         self._frequency_mask = None
+        self._frequency_mask_array = None
         self._frequency_domain_strain = None
         self._time_domain_strain = None
         self._channel = None
@@ -144,6 +145,9 @@ class InterferometerStrainData(object):
         mask: np.ndarray
             An array of boolean values
         """
+        if self._frequency_mask_array is not None \
+                and self._frequency_mask_array is not self._times_and_frequencies.frequency_array:
+            self._frequency_mask_updated = False
         if not self._frequency_mask_updated:
             frequency_array = self._times_and_frequencies.frequency_array
             mask = ((frequency_array >= self.minimum_frequency) &
@@ -151,12 +155,14 @@ class InterferometerStrainData(object):
             for notch in self.notch_list:
                 mask[notch.get_idxs(frequency_array)] = False
             self._frequency_mask = mask
+            self._frequency_mask_array = frequency_array
             self._frequency_mask_updated = True
         return self._frequency_mask
 
     @frequency_mask.setter
     def frequency_mask(self, mask):
         self._frequency_mask = mask
+        self._frequency_mask_array = None
         self._frequency_mask_updated = True
 
     @property
-- 
2.43.0


From 95347f94bac17dd3cdbb6cf15a2b0c72aa5cacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 18/79] fix: setting strain in one domain discards the strain
 stored in the other

---
 bilby/gw/detector/strain_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 79cf316..f55512d 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -364,6 +364,7 @@ class InterferometerStrainData(object):
         strain = TimeSeries(self.time_domain_strain, sample_rate=self.sampling_frequency)
         strain = strain.filter(bp, filtfilt=True)
         self._time_domain_strain = strain.value
+        self._frequency_domain_strain = None
 
     def create_power_spectral_density(
             self, fft_length, overlap=0, name='unknown', outdir=None,
@@ -608,6 +609,7 @@ class InterferometerStrainData(object):
         logger.debug('Setting data using provided frequency_domain_strain')
         if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
             self._frequency_domain_strain = frequency_domain_strain
+            self._time_domain_strain = None
             self.window_factor = 1
         else:
             raise ValueError("Data frequencies do not match frequency_array")
@@ -642,6 +644,8 @@ class InterferometerStrainData(object):
 
         if np.array_equal(frequency_array, self.frequency_array):
             self._frequency_domain_strain = frequency_domain_strain
+            self._time_domain_strain = None
+            self.window_factor = 1
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -665,6 +669,8 @@ class InterferometerStrainData(object):
         logger.debug('Setting zero noise data')
         self._frequency_domain_strain = np.zeros_like(self.frequency_array,
                                                       dtype=complex)
+        self._time_domain_strain = None
+        self.window_factor = 1
 
     def set_from_frame_file(
             self, frame_file, sampling_frequency, duration, start_time=0,
-- 
2.43.0


From 34aa658a97dcb7bf00d6ebad5849805de59acde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:10 +0000
Subject: [PATCH 19/79] fix: the waveform cache is not reused for a different
 frequency or time array

---
 bilby/gw/waveform_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..89779b4 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -169,8 +169,10 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
+        data_points = model_data_points if model is not None else transformed_model_data_points
         if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
+                self._cache['transformed_model'] == transformed_model and \
+                np.array_equal(self._cache['data_points'], data_points):
             return self._cache['waveform']
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
@@ -183,6 +185,7 @@ class WaveformGenerator(object):
         self._cache['parameters'] = self.parameters.copy()
         self._cache['model'] = model
         self._cache['transformed_model'] = transformed_model
+        self._cache['data_points'] = data_points
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
-- 
2.43.0


From 8d05d4d1ca2ae5d811c1c50f29094cd600b1d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 20/79] fix: bilby_mcmc chains continue from the swapped sample
 after a temperature swap

---
 bilby/bilby_mcmc/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..943e976 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -127,6 +127,8 @@ class Chain(object):
             index = index + self.position + 1
 
         self._chain_array[index] = sample.list
+        if index == self.position:
+            self.current_sample = sample
 
     def key_to_idx(self, key):
         return self.keys.index(key)
-- 
2.43.0


From 291ef9a14a5f8626ec9a3778dd9abd1d6cbe6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 21/79] fix: the hyper-model probability cache is not reused
 for different data

---
 bilby/hyper/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/hyper/model.py b/bilby/hyper/model.py
index 3e84fbb..54ab95f 100644
--- a/bilby/hyper/model.py
+++ b/bilby/hyper/model.py
@@ -32,6 +32,7 @@ class Model:
         self.cache = cache
         self._cached_parameters = {model: None for model in self.models}
         self._cached_probability = {model: None for model in self.models}
+        self._cached_data = {model: None for model in self.models}
 
         self.parameters = dict()
 
@@ -57,6 +58,7 @@ class Model:
             if (
                 self.cache
                 and self._cached_parameters[function] == function_parameters
+                and self._cached_data[function] is data
             ):
                 new_probability = self._cached_probability[function]
             else:
@@ -66,6 +68,7 @@ class Model:
                 if self.cache:
                     self._cached_parameters[function] = function_parameters
                     self._cached_probability[function] = new_probability
+                    self._cached_data[function] = data
             probability *= new_probability
         return probability
 
-- 
2.43.0


From f0f52601fc3aacd8b8829ed0f998476529cf7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 22/79] fix: changing a prior discards the cached constraint
 normalization

---
 bilby/core/prior/dict.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index b11f486..e5d6b7d 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -639,6 +639,14 @@ class PriorDict(dict):
                 redundant = True
         return redundant
 
+    def __setitem__(self, key, value):
+        super(PriorDict, self).__setitem__(key, value)
+        self._cached_normalizations = {}
+
+    def __delitem__(self, key):
+        super(PriorDict, self).__delitem__(key)
+        self._cached_normalizations = {}
+
     def copy(self):
         """
         We have to overwrite the copy method as it fails due to the presence of
-- 
2.43.0


From 0df8a663b450b2403c2791a9325e1c4f881c2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 23/79] fix: adding or removing priors refreshes the order used
 by rescale

---
 bilby/core/prior/dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index e5d6b7d..aa7be2f 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -708,6 +708,7 @@ class ConditionalPriorDict(PriorDict):
                     self._conditional_keys.append(key)
                     conditional_keys_unsorted.remove(key)
 
+        self._least_recently_rescaled_keys = []
         self._resolved = True
         if len(conditional_keys_unsorted) != 0:
             self._resolved = False
-- 
2.43.0


From 79fe67a8c1ae2fcbee4c9f311c7b812b08511fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 24/79] fix: replacing the posterior discards the cached
 density estimate

---
 bilby/core/result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 21a7657..5eeb9fd 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -707,6 +707,7 @@ class Result(object):
     @posterior.setter
     def posterior(self, posterior):
         self._posterior = posterior
+        self._kde = None
 
     @property
     def log_10_bayes_factor(self):
-- 
2.43.0


From 396b4e4d01adc50e2a29ac4011bad3a98a9b45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 25/79] fix: copying a prior dictionary keeps its conversion
 function

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index aa7be2f..99980d0 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -652,7 +652,10 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        if self.conversion_function != self.default_conversion_function:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
-- 
2.43.0


From c2d51ebfbffe5149b7f26a5bcb093afdafa4efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 26/79] fix: replacing the interferometers discards the cached
 noise likelihood

---
 bilby/gw/likelihood/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index c865433..04dc5e1 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -1019,6 +1019,7 @@ class GravitationalWaveTransient(Likelihood):
     @interferometers.setter
     def interferometers(self, interferometers):
         self._interferometers = InterferometerList(interferometers)
+        self._noise_log_likelihood_value = None
 
     def _rescale_signal(self, signal, new_distance):
         for mode in signal:
-- 
2.43.0


From ac3c56ed972c924d2816b5f0f05ee2b086b69280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 27/79] fix: SymmetricLogUniform.ln_prob is -inf outside the
 support

---
 bilby/core/prior/analytical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 5e7b309..200b827 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -353,7 +353,9 @@ class SymmetricLogUniform(Prior):
         float:
 
         """
-        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum)))
+        with np.errstate(divide='ignore'):
+            ln_in_range = np.log(1. * self.is_in_prior_range(np.abs(val)))
+        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum))) + ln_in_range
 
     def cdf(self, val):
         val = np.atleast_1d(val)
-- 
2.43.0


From e01c12ff85fb3bd18604eded22a73a6402707ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 28/79] fix: Sine and Cosine priors are normalised for any
 bounds

---
 bilby/core/prior/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 200b827..54ce8a3 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -414,7 +414,7 @@ class Cosine(Prior):
         =======
         float: Prior probability of val
         """
-        return np.cos(val) / 2 * self.is_in_prior_range(val)
+        return np.cos(val) / (np.sin(self.maximum) - np.sin(self.minimum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.sin(val) - np.sin(self.minimum)) /
@@ -468,7 +468,7 @@ class Sine(Prior):
         =======
         Union[float, array_like]: Prior probability of val
         """
-        return np.sin(val) / 2 * self.is_in_prior_range(val)
+        return np.sin(val) / (np.cos(self.minimum) - np.cos(self.maximum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.cos(val) - np.cos(self.minimum)) /
-- 
2.43.0


From e9ac2441402b608f6f3bb07d0a4c68bcb63a4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 29/79] fix: mass ratio from the secondary mass and chirp mass
 for unequal masses

---
 bilby/gw/conversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..475452b 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1086,11 +1086,11 @@ def mass_1_and_chirp_mass_to_mass_ratio(mass_1, chirp_mass):
         Mass ratio of the binary
     """
     temp = (chirp_mass / mass_1) ** 5
-    mass_ratio = (2 / 3 / (3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
-                           9 * temp)) ** (1 / 3) * temp + \
-                 ((3 ** 0.5 * (27 * temp ** 2 - 4 * temp ** 3) ** 0.5 +
-                   9 * temp) / (2 * 3 ** 2)) ** (1 / 3)
-    return mass_ratio
+    # the intermediate square root is imaginary when the other mass is more than about three times larger
+    root = (27 * temp ** 2 - 4 * temp ** 3 + 0j) ** 0.5
+    mass_ratio = (2 / 3 / (3 ** 0.5 * root + 9 * temp)) ** (1 / 3) * temp + \
+                 ((3 ** 0.5 * root + 9 * temp) / (2 * 3 ** 2)) ** (1 / 3)
+    return abs(mass_ratio)
 
 
 def mass_2_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass):
-- 
2.43.0


From 59ceac56f644901b4c5881adfec5c59cdc915cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 30/79] fix: a secondary mass alone is returned unchanged by
 generate_component_masses

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 475452b..8f8b228 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1920,7 +1920,7 @@ def generate_component_masses(sample, require_add=False, source=False):
                     chirp_mass=output_sample[chirp_mass_key])
             )
         else:
-            check_and_return_quietly(require_add, sample)
+            return check_and_return_quietly(require_add, sample)
 
         output_sample[mass_1_key] = 1 / output_sample["mass_ratio"] * (
             output_sample[mass_2_key]
-- 
2.43.0


From 1a34db0700e08c5b87a0a5951ee82cbdfce7e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 31/79] fix: times of the time-marginalized likelihood match
 the inverse transform samples

---
 bilby/gw/likelihood/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 04dc5e1..150c658 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -992,7 +992,7 @@ class GravitationalWaveTransient(Likelihood):
             self.interferometers.start_time + np.linspace(
                 0, self.interferometers.duration,
                 int(self.interferometers.duration / 2 *
-                    self.waveform_generator.sampling_frequency + 1))[1:]
+                    self.waveform_generator.sampling_frequency + 1))[:-1]
         self.time_prior_array = \
             self.priors['geocent_time'].prob(self._times) * self._delta_tc
 
-- 
2.43.0


From cd704934cdbd8e7f5ed3f81726b2d4f034af0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 32/79] fix: a distance look-up table that does not match the
 priors is rebuilt

---
 bilby/gw/likelihood/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 150c658..b9106c0 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -884,7 +884,8 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            match, _ = self._test_cached_lookup_table(lookup_table)
+            if match:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
-- 
2.43.0


From d1f845ed1f770746d5c8f6f5d2362a365bd721df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 33/79] fix: distance marginalization works together with time
 and calibration marginalization

---
 bilby/gw/likelihood/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index b9106c0..1e72d10 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -746,6 +746,8 @@ class GravitationalWaveTransient(Likelihood):
     def distance_marginalized_likelihood(self, d_inner_h, h_inner_h):
         d_inner_h_ref, h_inner_h_ref = self._setup_rho(
             d_inner_h, h_inner_h)
+        if np.ndim(d_inner_h_ref) > np.ndim(h_inner_h_ref) > 0:
+            h_inner_h_ref = h_inner_h_ref[:, np.newaxis]
         if self.phase_marginalization:
             d_inner_h_ref = np.abs(d_inner_h_ref)
         else:
-- 
2.43.0


From 01392626111b9890765cf2222f8bda2f6adc9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 34/79] fix: reconstructed times use the normalised inner
 product for any duration

---
 bilby/gw/likelihood/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 1e72d10..4e506aa 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -607,7 +607,7 @@ class GravitationalWaveTransient(Likelihood):
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-            d_inner_h += np.fft.fft(signal_long * data / psd)[in_prior]
+            d_inner_h += 4 / self.waveform_generator.duration * np.fft.fft(signal_long * data / psd)[in_prior]
             h_inner_h += ifo.optimal_snr_squared(signal=signal).real
 
         if self.distance_marginalization:
-- 
2.43.0


From bfcc674d1377b7c0c1910c1a4af495e176e1665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 35/79] fix: reconstructed times account for the calibration
 curve drawn

---
 bilby/gw/likelihood/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 4e506aa..c3b9ce1 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -604,6 +604,8 @@ class GravitationalWaveTransient(Likelihood):
                 signal_polarizations=signal_polarizations,
                 interferometer=ifo,
             )
+            if 'recalib_index' in self.parameters:
+                signal[mask] *= self.calibration_draws[ifo.name][int(self.parameters['recalib_index'])]
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-- 
2.43.0


From 8f501262fbce3af0caf07556159b8022398e5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 36/79] fix: calibration curves are drawn at the jittered time

---
 bilby/gw/likelihood/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index c3b9ce1..203a453 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -799,6 +799,9 @@ class GravitationalWaveTransient(Likelihood):
             signal_polarizations = \
                 self.waveform_generator.frequency_domain_strain(self.parameters)
 
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] += self.parameters['time_jitter']
+
         total_snrs = self._CalculatedSNRs()
 
         for interferometer in self.interferometers:
@@ -808,6 +811,9 @@ class GravitationalWaveTransient(Likelihood):
 
             total_snrs += per_detector_snr
 
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+
         if self.time_marginalization:
             log_l_cal_array = self.time_marginalized_likelihood(
                 d_inner_h_tc_array=total_snrs.d_inner_h_array,
-- 
2.43.0


From ec73b342701c4f7bf309c21553b33d1eb76711fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 37/79] fix: the analysis segment is left out of power spectral
 density estimates

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index f55512d..93a1bf3 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -402,7 +402,7 @@ class InterferometerStrainData(object):
 
         if analysis_segment_start_time is not None:
             analysis_segment_end_time = analysis_segment_start_time + fft_length
-            inside = (analysis_segment_start_time > self.time_array[0] +
+            inside = (analysis_segment_start_time > self.time_array[0] and
                       analysis_segment_end_time < self.time_array[-1])
             if inside:
                 logger.info("Removing analysis segment data from the PSD data")
-- 
2.43.0


From 9715d73168cc3e040013a8c2229b10cc217ee4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 38/79] fix: time series have the nearest integer number of
 samples

---
 bilby/core/utils/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/series.py b/bilby/core/utils/series.py
index ccd5937..e9bc253 100644
--- a/bilby/core/utils/series.py
+++ b/bilby/core/utils/series.py
@@ -98,7 +98,7 @@ def create_time_series(sampling_frequency, duration, starting_time=0.):
 
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
-    number_of_samples = int(duration * sampling_frequency)
+    number_of_samples = int(np.round(duration * sampling_frequency))
     return np.linspace(start=starting_time,
                        stop=duration + starting_time - 1 / sampling_frequency,
                        num=number_of_samples)
-- 
2.43.0


From 38fd73f409bf47a95834747581aa132457ff4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 39/79] fix: the window of time domain data is accounted for
 before the Fourier transform

---
 bilby/gw/detector/strain_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 93a1bf3..f0b715e 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -502,6 +502,7 @@ class InterferometerStrainData(object):
         if np.shape(time_domain_strain) == np.shape(self.time_array):
             self._time_domain_strain = time_domain_strain
             self._frequency_domain_strain = None
+            self.time_domain_window()
         else:
             raise ValueError("Data times do not match time array")
 
@@ -528,6 +529,7 @@ class InterferometerStrainData(object):
                                           start_time=time_series.epoch.value)
         self._time_domain_strain = time_series.value
         self._frequency_domain_strain = None
+        self.time_domain_window()
         self._channel = time_series.channel
 
     @property
-- 
2.43.0


From b41fdbc28752120b8f9f3e07fe2e135eee525ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:13 +0000
Subject: [PATCH 40/79] fix: a ready-made NotchList is accepted as notch_list

---
 bilby/gw/detector/strain_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index f0b715e..37722e4 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -128,10 +128,10 @@ class InterferometerStrainData(object):
         """
         if notch_list is None:
             self._notch_list = NotchList(None)
-        elif isinstance(notch_list, list):
-            self._notch_list = NotchList(notch_list)
         elif isinstance(notch_list, NotchList):
             self._notch_list = notch_list
+        elif isinstance(notch_list, list):
+            self._notch_list = NotchList(notch_list)
         else:
             raise ValueError("notch_list {} not understood".format(notch_list))
         self._frequency_mask_updated = False
-- 
2.43.0


From 7747b21ed80a32c987a7933ee02375cd4f2f2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 41/79] fix: reweighting resumes from the first sample without
 weights

---
 bilby/core/result.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 5eeb9fd..3883680 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -191,14 +191,16 @@ def get_weights_for_reweighting(
         old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
             np.genfromtxt(resume_file)
 
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
+        # samples which have not been evaluated yet are nan
+        remaining = np.isnan(old_log_prior_array + new_log_prior_array)
+        starting_index = int(np.argmax(remaining)) if np.any(remaining) else nposterior
         logger.info(f'Checkpoint resuming from {starting_index}.')
 
     else:
-        old_log_likelihood_array = np.zeros(nposterior)
-        old_log_prior_array = np.zeros(nposterior)
-        new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
+        old_log_likelihood_array = np.full(nposterior, np.nan)
+        old_log_prior_array = np.full(nposterior, np.nan)
+        new_log_likelihood_array = np.full(nposterior, np.nan)
+        new_log_prior_array = np.full(nposterior, np.nan)
 
         starting_index = 0
 
@@ -251,11 +253,13 @@ def get_weights_for_reweighting(
             new_log_prior_array[ii] = old_log_prior_array[ii]
 
         if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
+            logger.info(f'Checkpointing with {ii + 1} samples')
+            root, ext = os.path.splitext(resume_file)
+            temp_filename = f"{root}_temp{ext}"
             np.savetxt(
-                resume_file,
+                temp_filename,
                 [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
+            os.replace(temp_filename, resume_file)
 
     ln_weights = (
         new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
-- 
2.43.0


From 2e223d169be4d8108f9bfc1833d4026e4f21d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 42/79] fix: reweighting updates the log Bayes factor with the
 log evidence

---
 bilby/core/result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 3883680..d274da4 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -377,6 +377,7 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
         result.log_evidence += np.log(np.sum(weights))
     else:
         result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
+    result.log_bayes_factor = result.log_evidence - result.log_noise_evidence
 
     if new_prior is not None:
         for key, prior in new_prior.items():
-- 
2.43.0


From 8223d16297043ebf1ef449ffe784c5f75615b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 43/79] fix: weights by a new prior follow the rows of the
 posterior

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index d274da4..ffed460 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1690,13 +1690,13 @@ class Result(object):
                                  key in old_prior and key in prior_names}
         else:
             shared_parameters = {key: self.posterior[key] for key in new_prior if key in old_prior}
-        parameters = [{key: self.posterior[key][i] for key in shared_parameters.keys()}
+        parameters = [{key: self.posterior[key].iloc[i] for key in shared_parameters.keys()}
                       for i in range(len(self.posterior))]
 
         for i in range(len(self.posterior)):
             weight = 1
             for prior_key in shared_parameters.keys():
-                val = self.posterior[prior_key][i]
+                val = self.posterior[prior_key].iloc[i]
                 weight *= new_prior.evaluate_constraints(parameters[i])
                 weight *= new_prior[prior_key].prob(val) / old_prior[prior_key].prob(val)
 
-- 
2.43.0


From 2878db050547f991a14a05173b09c009c97a16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 44/79] fix: reweighting evaluates the priors at their sampled
 parameters only

---
 bilby/core/result.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index ffed460..205a3fb 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -236,18 +236,21 @@ def get_weights_for_reweighting(
                                      desc='Computing priors',
                                      total=n),
                                 start=starting_index):
-        # prior calculation needs to not have prior or likelihood keys
+        # the prior is evaluated at the sampled parameters only, the posterior may
+        # also contain fixed and derived parameters or the sample weights
         ln_prior = sample.pop("log_prior", np.nan)
         if "log_likelihood" in sample:
             del sample["log_likelihood"]
 
         if old_prior is not None:
-            old_log_prior_array[ii] = old_prior.ln_prob(sample)
+            old_log_prior_array[ii] = old_prior.ln_prob(
+                {key: sample[key] for key in old_prior.non_fixed_keys if key in sample})
         else:
             old_log_prior_array[ii] = ln_prior
 
         if new_prior is not None:
-            new_log_prior_array[ii] = new_prior.ln_prob(sample)
+            new_log_prior_array[ii] = new_prior.ln_prob(
+                {key: sample[key] for key in new_prior.non_fixed_keys if key in sample})
         else:
             # Don't perform prior reweighting (i.e. prior isn't updated)
             new_log_prior_array[ii] = old_log_prior_array[ii]
-- 
2.43.0


From 21a1889890d14ad193e2a6d6d39eb9251e0ae665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 45/79] fix: runs whose priors lack a parameter are reported as
 inconsistent

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 205a3fb..9ecea56 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1985,7 +1985,7 @@ class ResultList(list):
     def check_consistent_priors(self):
         for res in self:
             for p in self[0].priors.keys():
-                if not self[0].priors[p] == res.priors[p] or len(self[0].priors) != len(res.priors):
+                if len(self[0].priors) != len(res.priors) or not self[0].priors[p] == res.priors.get(p):
                     msg = "Inconsistent priors between results"
                     self._error_or_warning_consistency(msg)
 
-- 
2.43.0


From fa9e30680f8bffee2356eb2e633fa739067cdd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 46/79] fix: priors sampled one draw at a time condition later
 priors on every draw

---
 bilby/core/prior/dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 99980d0..38ceb27 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -756,6 +756,7 @@ class ConditionalPriorDict(PriorDict):
                             key: value[i] for key, value in required_variables.items()
                         }
                         samples[key][i] = subset_dict[key].sample(**rvars)
+                    subset_dict[key].least_recently_sampled = samples[key]
             else:
                 logger.debug("{} not a known prior.".format(key))
         return samples
-- 
2.43.0


From 48eddd38520af18dc4ed4bf3e7a34ed244f3ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:47 +0000
Subject: [PATCH 47/79] fix: the hyper-likelihood averages over the samples it
 holds

---
 bilby/hyper/likelihood.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bilby/hyper/likelihood.py b/bilby/hyper/likelihood.py
index 985c8a9..1a1600b 100644
--- a/bilby/hyper/likelihood.py
+++ b/bilby/hyper/likelihood.py
@@ -56,9 +56,14 @@ class HyperparameterLikelihood(Likelihood):
 
         self.data = self.resample_posteriors()
         self.n_posteriors = len(self.posteriors)
-        self.samples_per_posterior = self.max_samples
-        self.samples_factor =\
-            - self.n_posteriors * np.log(self.samples_per_posterior)
+
+    @property
+    def samples_per_posterior(self):
+        return len(self.data['prior'][0])
+
+    @property
+    def samples_factor(self):
+        return - self.n_posteriors * np.log(self.samples_per_posterior)
 
     def log_likelihood_ratio(self):
         self.hyper_prior.parameters.update(self.parameters)
-- 
2.43.0


From 7d9755f9ddb40759587bfbcd2cc7b44786ba4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 48/79] fix: raise the documented KeyError for tabulated
 calibration without an index

---
 bilby/gw/detector/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 51f776c..ca93bc3 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -301,12 +301,12 @@ class Precomputed(Recalibrate):
         super(Precomputed, self).__init__(prefix=f"recalib_index_{self.label}")
 
     def get_calibration_factor(self, frequency_array, **params):
-        idx = int(params.get(self.prefix, None))
+        idx = params.get(self.prefix, None)
         if idx is None:
             raise KeyError(f"Calibration index for {self.label} not found.")
         if not np.array_equal(frequency_array, self.frequency_array):
             raise ValueError("Frequency grid passed to calibrator doesn't match.")
-        return self.curves[idx]
+        return self.curves[int(idx)]
 
     @classmethod
     def constant_uncertainty_spline(
-- 
2.43.0


From 28006a4b16c4b2eff56a0830ff1dff4df1aeba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 49/79] fix: return as many calibration parameter rows as
 calibration curves were read

---
 bilby/gw/detector/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index ca93bc3..93d9ef0 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -61,6 +61,9 @@ def read_calibration_file(filename, frequency_array, number_of_response_curves,
 
     try:
         parameter_draws = pd.read_hdf(filename, key="CalParams")
+        parameter_draws = parameter_draws.iloc[
+            starting_index:number_of_response_curves + starting_index
+        ].reset_index(drop=True)
     except KeyError:
         parameter_draws = None
 
-- 
2.43.0


From 7aa18a2b52a46a20f4ce36dfc38d754e424ccae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 50/79] fix: tabulated spline calibration curves span the
 frequencies of the detector's calibration model

---
 bilby/gw/detector/calibration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 93d9ef0..17a52c6 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -451,15 +451,20 @@ def _generate_calibration_draws(interferometer, priors, n_curves):
         n_points=interferometer.calibration_model.n_points,
         frequency_array=frequencies,
         n_curves=n_curves,
+        minimum_frequency=interferometer.calibration_model.minimum_frequency,
+        maximum_frequency=interferometer.calibration_model.maximum_frequency,
     ))
     return draws, parameters
 
 
-def curves_from_spline_and_prior(parameters, label, n_points, frequency_array, n_curves):
+def curves_from_spline_and_prior(
+    parameters, label, n_points, frequency_array, n_curves,
+    minimum_frequency=None, maximum_frequency=None,
+):
     spline = CubicSpline(
         prefix=f"recalib_{label}_",
-        minimum_frequency=frequency_array[0],
-        maximum_frequency=frequency_array[-1],
+        minimum_frequency=frequency_array[0] if minimum_frequency is None else minimum_frequency,
+        maximum_frequency=frequency_array[-1] if maximum_frequency is None else maximum_frequency,
         n_points=n_points,
     )
     curves = list()
-- 
2.43.0


From e78b20651eb78a90cd683ded7fe6283c5a2039e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 51/79] fix: compare calibration models holding arrays

---
 bilby/gw/detector/calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 17a52c6..60e5a3e 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -149,7 +149,11 @@ class Recalibrate(object):
                             if self.prefix in key})
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return (
+            self.__class__ == other.__class__
+            and self.__dict__.keys() == other.__dict__.keys()
+            and all(np.array_equal(self.__dict__[key], other.__dict__[key]) for key in self.__dict__)
+        )
 
 
 class CubicSpline(Recalibrate):
-- 
2.43.0


From 6f4c35fb71ad880cd4ec2cb8783b3eb223ec1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 52/79] fix: order emcee samples like their stored likelihoods
 and priors

---
 bilby/core/sampler/emcee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 2c12ee3..b824a32 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -418,8 +418,11 @@ class Emcee(MCMCSampler):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.chain[:, self.nburn :, :].reshape(
-            (-1, self.ndim)
+        # the blobs are ordered by step first, so the samples have to be as well
+        self.result.samples = (
+            self.sampler.chain[:, self.nburn :, :]
+            .swapaxes(0, 1)
+            .reshape((-1, self.ndim))
         )
         self.result.walkers = self.sampler.chain
         return self.result
-- 
2.43.0


From c44a46a0d88342417295f6fc17c316382a1c1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 53/79] fix: store kombine walkers by walker

---
 bilby/core/sampler/kombine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 4677519..e351823 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -212,9 +212,7 @@ class Kombine(Emcee):
 
         tmp_chain = self.sampler.chain[self.nburn :, :, :].copy()
         self.result.samples = tmp_chain.reshape((-1, self.ndim))
-        self.result.walkers = self.sampler.chain.reshape(
-            (self.nwalkers, self.nsteps, self.ndim)
-        )
+        self.result.walkers = self.sampler.chain.swapaxes(0, 1)
         return self.result
 
     def _setup_pool(self):
-- 
2.43.0


From 61621b5f3798c25fd29972d78268de5bdd551b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 54/79] fix: return the prior ratio from the DNest4 proposal

---
 bilby/core/sampler/dnest4.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/dnest4.py b/bilby/core/sampler/dnest4.py
index 87717f6..5f98077 100644
--- a/bilby/core/sampler/dnest4.py
+++ b/bilby/core/sampler/dnest4.py
@@ -9,7 +9,14 @@ from .base_sampler import NestedSampler, _TemporaryFileSamplerMixin, signal_wrap
 
 class _DNest4Model(object):
     def __init__(
-        self, log_likelihood_func, from_prior_func, widths, centers, highs, lows
+        self,
+        log_likelihood_func,
+        from_prior_func,
+        widths,
+        centers,
+        highs,
+        lows,
+        log_prior_func,
     ):
         """Initialize the DNest4 model.
         Args:
@@ -28,6 +35,7 @@ class _DNest4Model(object):
         self._centers = centers
         self._highs = highs
         self._lows = lows
+        self._log_prior = log_prior_func
         self._n_dim = len(widths)
         return
 
@@ -43,6 +51,7 @@ class _DNest4Model(object):
         """The perturb function to perform Monte Carlo trial moves."""
         from ..utils.random import rng
 
+        log_prior = self._log_prior(coords)
         idx = rng.integers(self._n_dim)
 
         coords[idx] += self._widths[idx] * (rng.uniform(size=1) - 0.5)
@@ -51,7 +60,8 @@ class _DNest4Model(object):
 
         coords[idx] = self.wrap(coords[idx], (cc - 0.5 * cw), cc + 0.5 * cw)
 
-        return 0.0
+        # The move is symmetric, the prior enters through its ratio
+        return self._log_prior(coords) - log_prior
 
     @staticmethod
     def wrap(x, minimum, maximum):
@@ -185,6 +195,7 @@ class DNest4(_TemporaryFileSamplerMixin, NestedSampler):
             self._centers,
             self._highs,
             self._lows,
+            self.log_prior,
         )
 
     def _set_backend(self):
-- 
2.43.0


From 6dc7aea0a0402d28310c59abcfba8aeacb951932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 55/79] fix: interpret a sampler's numeric sampling time as
 seconds

---
 bilby/core/sampler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index 9261e27..cb3ea09 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -311,7 +311,7 @@ def run_sampler(
         if result.sampling_time is None:
             result.sampling_time = end_time - start_time
         elif isinstance(result.sampling_time, (float, int)):
-            result.sampling_time = datetime.timedelta(result.sampling_time)
+            result.sampling_time = datetime.timedelta(seconds=result.sampling_time)
 
         logger.info(f"Sampling time: {result.sampling_time}")
         # Convert sampling time into seconds
-- 
2.43.0


From 0352b91cb1c129b554f5870f9f40147ccf633f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 56/79] fix: construct a sampler given as a class in
 run_sampler

---
 bilby/core/sampler/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/__init__.py b/bilby/core/sampler/__init__.py
index cb3ea09..fe4e5ed 100644
--- a/bilby/core/sampler/__init__.py
+++ b/bilby/core/sampler/__init__.py
@@ -277,7 +277,7 @@ def run_sampler(
             **kwargs,
         )
     elif inspect.isclass(sampler):
-        sampler = sampler.__init__(
+        sampler = sampler(
             likelihood,
             priors=priors,
             outdir=outdir,
@@ -286,6 +286,7 @@ def run_sampler(
             plot=plot,
             injection_parameters=injection_parameters,
             meta_data=meta_data,
+            result_class=result_class,
             npool=npool,
             **kwargs,
         )
-- 
2.43.0


From c0cb63dc80031cd1f8d6c6c5f7162d198aeef1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 57/79] fix: joint priors read from a dictionary share one
 distribution

---
 bilby/core/prior/dict.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 38ceb27..efe940e 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -177,6 +177,17 @@ class PriorDict(dict):
             if key in prior_dict:
                 del prior_dict[key]
         obj = class_(prior_dict)
+
+        # every JointPrior has been read with a distribution of its own:
+        # parameters of the same distribution must share a single instance
+        jointdists = dict()
+        for key in obj:
+            if isinstance(obj[key], JointPrior):
+                for name in obj[key].dist.names:
+                    jointdists[name] = obj[key].dist
+        for key in obj:
+            if isinstance(obj[key], JointPrior):
+                obj[key].dist = jointdists.get(key, obj[key].dist)
         return obj
 
     @classmethod
-- 
2.43.0


From 2abccb9082d6e39f65839edc9fa504e9e370a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 58/79] fix: joint prior distributions keep their bounds when
 read back

---
 bilby/core/prior/joint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..27639ed 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -22,9 +22,9 @@ class BaseJointPriorDist(object):
             A list of the parameter names in the JointPriorDist. The
             listed parameters must have the same order that they appear in
             the lists of statistical parameters that may be passed in child class
-        bounds: list (optional)
-            A list of bounds on each parameter. The defaults are for bounds at
-            +/- infinity.
+        bounds: list or dict (optional)
+            A list of bounds on each parameter, or a dictionary of them keyed by
+            name. The defaults are for bounds at +/- infinity.
         """
         self.distname = "joint_dist"
         if not isinstance(names, list):
@@ -34,6 +34,10 @@ class BaseJointPriorDist(object):
 
         self.num_vars = len(self.names)
 
+        # bounds given per parameter, as they are stored by this class
+        if isinstance(bounds, dict):
+            bounds = [tuple(bounds[name]) for name in self.names]
+
         # set the bounds for each parameter
         if isinstance(bounds, list):
             if len(bounds) != len(self):
-- 
2.43.0


From 8612c1aa30f301551ab95850708a82534628dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 59/79] fix: results read from HDF5 keep the class of their
 prior dictionary

---
 bilby/core/result.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 9ecea56..d3d88de 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -550,9 +550,10 @@ class Result(object):
         with h5py.File(filename, "r") as ff:
             data = recursively_load_dict_contents_from_group(ff, '/')
         data["posterior"] = pd.DataFrame(data["posterior"])
-        data["priors"] = PriorDict._get_from_json_dict(
-            json.loads(data["priors"], object_hook=decode_bilby_json)
-        )
+        priors = json.loads(data["priors"], object_hook=decode_bilby_json)
+        if not isinstance(priors, PriorDict):
+            priors = PriorDict._get_from_json_dict(priors)
+        data["priors"] = priors
         try:
             cls = getattr(import_module(data['__module__']), data['__name__'])
         except ImportError:
-- 
2.43.0


From 66f950a65d9427d31dae3b92ba5032b456cf5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 60/79] fix: Result.from_pickle finds the file by outdir and
 label

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index d3d88de..9060651 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -537,7 +537,7 @@ class Result(object):
     @staticmethod
     @docstring(_load_doctstring.format(format="pickle"))
     def from_pickle(filename=None, outdir=None, label=None):
-        filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
+        filename = _determine_file_name(filename, outdir, label, 'pkl', False)
         import dill
         with open(filename, "rb") as ff:
             return dill.load(ff)
-- 
2.43.0


From 8e697908bd681a845cfafe317bc306093aea43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 61/79] fix: save max_autocorrelation_time with the result

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 9060651..4453b6a 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -755,8 +755,8 @@ class Result(object):
             'sampling_time', 'sampler_kwargs', 'use_ratio', 'information_gain',
             'log_likelihood_evaluations', 'log_prior_evaluations',
             'num_likelihood_evaluations', 'samples', 'nested_samples',
-            'walkers', 'nburn', 'parameter_labels', 'parameter_labels_with_unit',
-            'version']
+            'walkers', 'nburn', 'max_autocorrelation_time', 'parameter_labels',
+            'parameter_labels_with_unit', 'version']
         dictionary = dict()
         for attr in save_attrs:
             try:
-- 
2.43.0


From 06def4a827e7f063a138777dd14c49e8efc5b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 62/79] fix: None entries of text lists survive HDF5

---
 bilby/core/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..d2b6528 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -236,7 +236,7 @@ def decode_from_hdf5(item):
         if item.size == 0:
             output = item
         elif "|S" in str(item.dtype) or isinstance(item[0], bytes):
-            output = [it.decode() for it in item]
+            output = [None if it == b"__none__" else it.decode() for it in item]
         else:
             output = item
     elif isinstance(item, np.bool_):
-- 
2.43.0


From 96aecfcf6012d3192a7769ae2e4391f7e5d74109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 63/79] fix: numpy booleans can be saved with a result

---
 bilby/core/utils/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index d2b6528..5a521f2 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -35,6 +35,8 @@ class BilbyJsonEncoder(json.JSONEncoder):
             return int(obj)
         if isinstance(obj, np.floating):
             return float(obj)
+        if isinstance(obj, np.bool_):
+            return bool(obj)
         if isinstance(obj, PriorDict):
             return {"__prior_dict__": True, "content": obj._get_json_dict()}
         if isinstance(obj, (BaseJointPriorDist, Prior)):
@@ -270,6 +272,8 @@ def encode_for_hdf5(key, item):
         item = float(item)
     elif isinstance(item, np.complex128):
         item = complex(item)
+    elif isinstance(item, np.bool_):
+        item = bool(item)
     if isinstance(item, np.ndarray):
         # Numpy's wide unicode strings are not supported by hdf5
         if item.dtype.kind == 'U':
-- 
2.43.0


From daf3adb0197916cf10f06a40b22783f2dfde127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 64/79] fix: write the sampling time file atomically

---
 bilby/core/sampler/base_sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 17a7b11..892d9c0 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -975,8 +975,12 @@ class _TemporaryFileSamplerMixin:
         new_sampling_time = current_time - self.start_time
         self.total_sampling_time += new_sampling_time
 
-        with open(self.time_file_path, "w") as time_file:
+        # Write to a temporary file first, an interruption must not leave an
+        # incomplete file behind
+        temp_file_path = f"{self.time_file_path}.temp"
+        with open(temp_file_path, "w") as time_file:
             time_file.write(str(self.total_sampling_time))
+        os.replace(temp_file_path, self.time_file_path)
 
         self.start_time = current_time
 
-- 
2.43.0


From 89986cc7ea8a477cbf87267e09290c39021cc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 65/79] fix: bilby_mcmc honours resume=False

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 74a7d1e..b8c6e8d 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -296,7 +296,7 @@ class Bilby_MCMC(MCMCSampler):
         return result
 
     def setup_chain_set(self):
-        if self.read_current_state() and self.resume is True:
+        if self.resume is True and self.read_current_state():
             self.ptsampler.pool = self.pool
         else:
             self.init_ptsampler()
-- 
2.43.0


From 4e2b9a97c67fa9bc533d92eaa9fc6228da8b6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 66/79] fix: cached reconstruction blocks of any length are
 resumed in order

---
 bilby/gw/conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 8f8b228..5e93ae2 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2492,8 +2492,10 @@ def generate_posterior_samples_from_marginalized_likelihood(
     pbar = tqdm(total=len(samples), file=sys.stdout)
     while ii < len(samples):
         if ii in cached_samples_dict:
-            ii += block
-            pbar.update(block)
+            # the cache may have been written with another block size
+            ncached = len(cached_samples_dict[ii])
+            ii += ncached
+            pbar.update(ncached)
             continue
 
         if pool is not None:
-- 
2.43.0


From d27f4068800ba0063da664349c7e3b209be03a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 67/79] fix: waveform generators do not share the dictionary of
 waveform arguments

---
 bilby/gw/waveform_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index 89779b4..c6f4cfb 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -69,7 +69,7 @@ class WaveformGenerator(object):
         else:
             self.parameter_conversion = parameter_conversion
         if waveform_arguments is not None:
-            self.waveform_arguments = waveform_arguments
+            self.waveform_arguments = dict(waveform_arguments)
         else:
             self.waveform_arguments = dict()
         if isinstance(parameters, dict):
-- 
2.43.0


From 7901bc85a548766e7e5e2f3dc62e64d9ae5748b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 68/79] fix: ROQ likelihoods do not change the dictionary of
 weights they are given

---
 bilby/gw/likelihood/roq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index fddfa92..1f0c863 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -119,7 +119,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         else:
             raise TypeError("roq_params should be array or str")
         if isinstance(weights, dict):
-            self.weights = weights
+            self.weights = weights.copy()
         elif isinstance(weights, str):
             self.weights = self.load_weights(weights)
         else:
-- 
2.43.0


From b8c42383e71553fc67158db40b17a6b65be8e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 69/79] fix: pymc interface no longer changes the default
 arguments of its class

---
 bilby/core/sampler/pymc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/pymc.py b/bilby/core/sampler/pymc.py
index fd138b9..645ebfd 100644
--- a/bilby/core/sampler/pymc.py
+++ b/bilby/core/sampler/pymc.py
@@ -105,7 +105,7 @@ class Pymc(MCMCSampler):
         # add default step kwargs
         _, STEP_METHODS, _ = self._import_external_sampler()
         self.default_step_kwargs = {m.__name__.lower(): None for m in STEP_METHODS}
-        self.default_kwargs.update(self.default_step_kwargs)
+        self.default_kwargs = {**self.default_kwargs, **self.default_step_kwargs}
 
         super(Pymc, self).__init__(
             likelihood=likelihood,
-- 
2.43.0


From 72223b37a6245520c901041899bc384edf88d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 70/79] fix: UniformProposal draws parameters of finite width
 from their prior range

---
 bilby/bilby_mcmc/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 12b6cdd..799f347 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -346,7 +346,7 @@ class UniformProposal(BaseProposal):
         sample = chain.current_sample
         for key in self.parameters:
             width = self.prior_width_dict[key]
-            if np.isinf(width) is False:
+            if not np.isinf(width):
                 sample[key] = random.rng.uniform(
                     self.prior_minimum_dict[key], self.prior_maximum_dict[key]
                 )
-- 
2.43.0


From efe53d84023e107cd296faec1a2f87a78cb4b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 71/79] fix: bilby_mcmc run statistics count whole days of
 sampling time

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index b8c6e8d..5441bab 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -289,7 +289,7 @@ class Bilby_MCMC(MCMCSampler):
         result.meta_data["run_statistics"] = dict(
             nlikelihood=ptsampler.position * ptsampler.L1steps * ptsampler._nsamplers,
             neffsamples=ptsampler.nsamples * ptsampler.convergence_inputs.thin_by_nact,
-            sampling_time_s=result.sampling_time.seconds,
+            sampling_time_s=result.sampling_time.total_seconds(),
             ncores=npool,
         )
 
-- 
2.43.0


From 20dd6b52b02ba8ad1199d6983a538c8b4a43c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 72/79] fix: count rejection samples of tempered chains, not of
 further ensemble members

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 5441bab..777ae54 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -768,7 +768,7 @@ class BilbyPTMCMCSampler(object):
         for sampler in self.zerotemp_sampler_list:
             nsamples_list.append(sampler.nsamples)
         if self.pt_rejection_sample:
-            for samp in self.sampler_list[1:]:
+            for samp in self.tempered_sampler_list:
                 nsamples_list.append(
                     len(samp.rejection_sample_zero_temperature_samples())
                 )
-- 
2.43.0


From a987d0cf6acbf51c4a845fc57d6179dd4fdd196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 73/79] fix: adapt temperatures to the swap ratio

---
 bilby/bilby_mcmc/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 777ae54..f501b4b 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -912,7 +912,7 @@ class BilbyPTMCMCSampler(object):
         tt = self.swap_counter["temperature"]
         for sampler_list in self.sampler_list_of_tempered_lists:
             betas = np.array([s.beta for s in sampler_list])
-            ratios = np.array([s.acceptance_ratio for s in sampler_list[:-1]])
+            ratios = np.array([s.pt_acceptance_ratio for s in sampler_list[:-1]])
 
             # Modulate temperature adjustments with a hyperbolic decay.
             decay = self.adapt_t0 / (tt + self.adapt_t0)
@@ -1328,6 +1328,10 @@ class BilbyMCMCSampler(object):
     def acceptance_ratio(self):
         return self.accepted / (self.accepted + self.rejected)
 
+    @property
+    def pt_acceptance_ratio(self):
+        return self.pt_accepted / (self.pt_accepted + self.pt_rejected)
+
     @property
     def samples(self):
         if self.beta == 1:
-- 
2.43.0


From 199a2d92ae0fb47049597e1b1c445336b316c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 74/79] fix: reweighting hot chains leaves their stored
 likelihoods alone

---
 bilby/bilby_mcmc/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index f501b4b..1055dca 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1357,8 +1357,9 @@ class BilbyMCMCSampler(object):
 
         # Revert to true likelihood if needed
         if _sampling_convenience_dump.use_ratio:
-            zerotemp_logl += (
-                _sampling_convenience_dump.likelihood.noise_log_likelihood()
+            zerotemp_logl = (
+                zerotemp_logl
+                + _sampling_convenience_dump.likelihood.noise_log_likelihood()
             )
 
         # Calculate normalised weights
-- 
2.43.0


From 250129770ce5f22e7dd6c4edc3ef0a09083dfc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 75/79] fix: initial maximisation avoids points outside the
 prior

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 1055dca..340d011 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1403,7 +1403,7 @@ def get_initial_maximimum_posterior_sample(beta):
         ln_prior = priors.ln_prob(sample)
 
         if np.isinf(ln_prior):
-            return -np.inf
+            return np.inf
 
         likelihood.parameters.update(sample)
 
-- 
2.43.0


From a58fc19885200ddaf9ed3ffecfe97f0a9db82962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 76/79] fix: dynesty run statistics count whole days of
 sampling time

---
 bilby/core/sampler/dynesty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 50f0229..ec37953 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -652,7 +652,7 @@ class Dynesty(NestedSampler):
         self.result.meta_data["run_statistics"] = dict(
             nlikelihood=self.result.num_likelihood_evaluations,
             neffsamples=neffsamples,
-            sampling_time_s=self.sampling_time.seconds,
+            sampling_time_s=self.sampling_time.total_seconds(),
             ncores=self.kwargs.get("queue_size", 1),
         )
         self.kwargs["rstate"] = None
-- 
2.43.0


From f9725ae59e61ea167e42ad857e829cf423004f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 77/79] fix: act walks survive chains without accepted moves

---
 bilby/core/sampler/dynesty_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bilby/core/sampler/dynesty_utils.py b/bilby/core/sampler/dynesty_utils.py
index fb7b8d2..daaf36e 100644
--- a/bilby/core/sampler/dynesty_utils.py
+++ b/bilby/core/sampler/dynesty_utils.py
@@ -209,6 +209,11 @@ class ACTTrackingRWalk:
             logger.debug(f"Not rebuilding cache, remaining size {len(self._cache)}")
         return self._cache
 
+    @property
+    def integer_act(self):
+        """The autocorrelation time rounded up, infinite if it is unknown"""
+        return int(np.ceil(self.act)) if np.isfinite(self.act) else np.inf
+
     def build_cache(self):
         args = self.args
         # Bounds
@@ -220,7 +225,7 @@ class ACTTrackingRWalk:
 
         # Setup
         current_u = args.u
-        check_interval = int(np.ceil(self.act))
+        check_interval = self.integer_act
         target_nact = 50
         next_check = check_interval
         n_checks = 0
@@ -300,8 +305,7 @@ class ACTTrackingRWalk:
         )
         reject += nfail
         blob = {"accept": accept, "reject": reject, "scale": args.scale}
-        iact = int(np.ceil(self.act))
-        thin = self.thin * iact
+        thin = self.thin * self.integer_act
 
         if accept == 0:
             logger.debug(
-- 
2.43.0


From 4df67b984a3f93d4f44de7bd1a95b70218d61584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 78/79] fix: JumpProposalCycle leaves the list of proposals it
 is given alone

---
 bilby/core/sampler/proposal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index e3ac884..9002276 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -148,10 +148,10 @@ class JumpProposalCycle(object):
 
     @proposal_functions.setter
     def proposal_functions(self, proposal_functions):
-        for i, proposal in enumerate(proposal_functions):
-            if isclass(proposal):
-                proposal_functions[i] = proposal()
-        self._proposal_functions = proposal_functions
+        self._proposal_functions = [
+            proposal() if isclass(proposal) else proposal
+            for proposal in proposal_functions
+        ]
 
     @property
     def index(self):
-- 
2.43.0


From e3db1b107bef0833e6774db6aa0fac1f3eb18c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:55 +0000
Subject: [PATCH 79/79] fix: ROQ source models return None for caught waveform
 errors

---
 bilby/gw/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/source.py b/bilby/gw/source.py
index b8d5c2e..a7b0d9f 100644
--- a/bilby/gw/source.py
+++ b/bilby/gw/source.py
@@ -868,6 +868,8 @@ def _base_roq_waveform(
         luminosity_distance=luminosity_distance, theta_jn=theta_jn, phase=phase,
         a_1=a_1, a_2=a_2, tilt_1=tilt_1, tilt_2=tilt_2, phi_jl=phi_jl,
         phi_12=phi_12, lambda_1=lambda_1, lambda_2=lambda_2, **waveform_arguments)
+    if waveform_polarizations is None:
+        return None
 
     return {
         'linear': {
-- 
2.43.0

