From f0164a4517e29972c5841d747035f891d6e9a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 01/25] fix: multi-fidelity samplers no longer empty the
 caller's num_samples list

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..0fe6b13 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -60,6 +60,8 @@ class MultiFidelitySampler:
         data = []
         # check the number of samples
         self._mf_samples_rules(num_samples)
+        # the list is consumed below, do not touch the one of the caller
+        num_samples = list(num_samples)
 
         # get the samples of low fidelity first
         data.insert(0, self._get_non_nested_samples(
-- 
2.43.0


From 99d00d81ee65f72f740eaf6f07ba6785486d35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 02/25] fix: nested MFLatinHyperCube selection follows the seed

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 0fe6b13..0311876 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,7 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 6e9a305f9fc3bcf916976395427a46d950c01140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 03/25] fix: SobolSequence no longer generates (and discards)
 2**num_samples points

---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..8d76d64 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From cc716fc386ffc65ab630af06fbee71d7e7ab2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 04/25] fix: PSO/DE results report the best design also when
 stopping early

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..7f46724 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,8 +235,8 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
@@ -402,8 +402,8 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
-- 
2.43.0


From bc75a04ac05df5cd909852ba163a71dda8d318ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 05/25] fix: ScaledKriging.predict scales the low-fidelity
 model, not the discrepancy

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From a17c23b9b682464f01228ad833fe2fe2d6798bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 06/25] fix: retraining GaussianProcessRegression learns the
 noise again

---
 src/mfpml/models/gaussian_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..1a063ed 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -86,6 +87,8 @@ class GaussianProcessRegression:
         self.sample_y = Y.reshape(-1, 1)
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
+        # the noise is learned again from the prior at every training
+        self.noise = self.noise_prior
         # optimizer hyper-parameters
         self._hyper_paras_optimization()
 
-- 
2.43.0


From de6a9269676329ebe45fe75a2b2315e1433274e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 07/25] fix: retraining HierarchicalKriging learns the noise
 again

---
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..76e4136 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -55,6 +56,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         # prediction of low-fidelity at high-fidelity locations
         F = self.predict_lf(X)
         self.F = (F-self.yh_mean)/self.yh_std
+        # the noise is learned again from the prior at every training
+        self.noise = self.noise_prior
         # optimize the hyper parameters
         self._optHyp()
         # update the parameters
-- 
2.43.0


From 348c045d327a0f06dd23832637985868ed7dfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 08/25] fix: CoKriging keeps one noise scale over predict and
 repeated train

---
 src/mfpml/models/co_kriging.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..631de79 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -350,7 +350,9 @@ class CoKriging:
             optimizer_restart=optimizer_restart,
             noise_prior=noise_prior)
 
-        # noise (unscaled, it will be scaled later)
+        # noise prior (unscaled)
+        self.noise_prior = noise_prior
+        # noise at the scale of the normalized responses
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -377,11 +379,13 @@ class CoKriging:
         self.sample_xl_scaled = self.normalize_input(self.sample_xl.copy())
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
-        # scale the noise value
-        if self.noise is not None:
-            self.noise = self.noise / self.yh_std
-            # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+        # scale the noise value (None: it is learned at every training)
+        if self.noise_prior is not None:
+            self.noise = self.noise_prior / self.yh_std
+        else:
+            self.noise = None
+        # update the noise value of the low-fidelity model
+        self.lfGP.noise = self.noise
         # train the low-fidelity model
         start_time = time.time()
 
@@ -457,8 +461,8 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            noise = self.noise * self.yh_std
+            total_std = np.sqrt((self.epis_std**2 + noise**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
@@ -569,7 +573,7 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From 830810b1ff65a30addba755b1edf3c878e4ee926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 09/25] fix: CoKriging provides the bound attribute the
 acquisitions read

---
 src/mfpml/models/co_kriging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 631de79..c21bb2c 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -336,6 +336,8 @@ class CoKriging:
         super().__init__()
         # get information of the modeling problem
         self.bounds = design_space
+        # name used by the acquisition functions
+        self.bound = design_space
         self.optimizer = optimizer
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
-- 
2.43.0


From 5873566502ad98bd4a0cdff2c194549591093fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 10/25] fix: GaussianProcessRegression keeps its own copy of
 the training data

---
 src/mfpml/models/gaussian_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 1a063ed..0f10c2f 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -81,10 +81,10 @@ class GaussianProcessRegression:
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-        self.sample_x = X
+        self.sample_x = np.array(X)
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = np.array(Y).reshape(-1, 1)
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # the noise is learned again from the prior at every training
-- 
2.43.0


From cf9feb2c00bb8edf43e767265e535477eec5880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 11/25] fix: CEI evaluates several points at once, one value
 per point

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..c5fb77a 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -108,7 +108,7 @@ class CEI(SFConsAcq):
         # get the probability of feasibility
         pof = self.pof(x, cons_surrogates)
         # get the expected improvement of constraints
-        cei = -ei_obj * pof
+        cei = -ei_obj * pof.reshape(-1, 1)
 
         return cei
 
@@ -131,8 +131,8 @@ class CEI(SFConsAcq):
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            mean, std = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = mean.ravel(), std.ravel()
 
         # probability of feasibility
         pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
-- 
2.43.0


From f4750138b5425d171c03508ce5b7616b4e957c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 12/25] fix: acquisition query with a user optimizer passes the
 surrogate to eval

---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 1 +
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index c5fb77a..f382951 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From 7f351b4491dbf5d84c2b4a626db74181db03fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 13/25] fix: constrained BO reports feasible designs only as
 best_x

---
 src/mfpml/optimization/sf_cons_bo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..65db275 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -126,10 +126,11 @@ class BayesConsOpt(ABC):
         try:
             feasible_index = np.where(
                 np.sum(self.init_cons_response <= 0, axis=1)
-                == self.problem.num_cons)
+                == self.problem.num_cons)[0]
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            min_index = feasible_index[np.where(
+                self.init_obj_response[feasible_index] == self.best)[0]]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -151,10 +152,11 @@ class BayesConsOpt(ABC):
         try:
             feasible_index = np.where(
                 np.sum(self.cons_response <= 0, axis=1)
-                == self.problem.num_cons)
+                == self.problem.num_cons)[0]
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            min_index = feasible_index[np.where(
+                self.obj_response[feasible_index] == min_y)[0]]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 4ec9e214865ffe18a0c2cdddc9883fc5e4bda691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 14/25] fix: BO runs its whole budget when the optimum of the
 problem is unknown

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 src/mfpml/optimization/sf_cons_bo.py   | 2 +-
 src/mfpml/optimization/sf_uncons_bo.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..cbaf3a0 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -124,7 +124,7 @@ class mfUnConsBayesOpt:
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 65db275..5bc9eae 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -186,7 +186,7 @@ class BayesConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index e0f17da..0e78e95 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -133,7 +133,7 @@ class BayesUnConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
-- 
2.43.0


From 26556fa39fbf7caf9705ede08c561c6120f795d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 15/25] fix: an unknown fidelity raises the ValueError that was
 only constructed

---
 src/mfpml/models/mf_gaussian_process.py  | 2 +-
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 547a8cd..cf5448f 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -137,7 +137,7 @@ class _mfGaussianProcess:
         elif fidelity == 1:
             return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
         else:
-            ValueError("Unknown fidelity input.")
+            raise ValueError("Unknown fidelity input.")
 
     def normalize_input(self, inputs: np.ndarray) -> np.ndarray:
         """Normalize samples to range [0, 1]
diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..1c36956 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -119,7 +119,7 @@ class AugmentedEI(MFUnConsAcq):
         elif fidelity == 1:
             alpha3 = cost_ratio
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # calculate the augmented expected improvement
         z = (fmin - pre) / std
         aei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -283,7 +283,7 @@ class VFEI(MFUnConsAcq):
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
             s = mf_surrogate.beta * std_lf
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # expected improvement
         z = (fmin - pre) / (std + 1e-8)
         vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -399,7 +399,7 @@ class VFLCB(MFUnConsAcq):
         elif fidelity == 1:
             std = std_lf * cr
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # vflcb
         vflcb = self.kappa[0] * mean_hf - self.kappa[1] * std
         return vflcb.ravel()
-- 
2.43.0


From 58a531f49bd99e666f0b73496f6895edbbd0cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 16/25] fix: VFEI uses the standard deviation of the requested
 fidelity

---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 1c36956..667fab1 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -281,12 +281,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             raise ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From de2d5e531988e7306f98ecec705ff25e80e9693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 17/25] fix: GoldPrice declares the design where its optimum is
 attained

---
 src/mfpml/problems/sf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..693c505 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From f3f80b3759242cc4ee8d34f320a0433e6b90e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 18/25] fix: AckleyN2 declared its optimum and optimum_scheme
 swapped

---
 src/mfpml/problems/sf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 693c505..2a423bb 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -506,8 +506,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 1a9a9ede1e092b7917a3be715078d624da6fedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 19/25] fix: creating a problem of one dimension no longer
 alters other instances

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 13 ++++---------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 2a423bb..c476693 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -489,15 +487,12 @@ class Ackley(Functions):
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From 4d5cd2e33dfc2f94a4cf84649dc142a568cc0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 20/25] fix: mf_Park91A is finite on the x1 = 0 face of its
 domain

---
 src/mfpml/problems/mf_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..752be3e 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,7 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From 9106ec4f92597d43689ac5e72df1dacfd93884f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 21/25] fix: ExtendedPI weighs by the sample density, one value
 per point

---
 src/mfpml/optimization/mf_acqusitions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 667fab1..510c922 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -518,13 +518,17 @@ class ExtendedPI(MFUnConsAcq):
         corr = self.corr(x, mf_surrogate, fidelity)
         if fidelity == 0:
             cr = 1
-            eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_hf, fidelity=0), axis=1)
+            eta = np.prod(1 - mf_surrogate._eval_corr(
+                x, mf_surrogate._get_sample_hf, fidelity=0),
+                axis=1, keepdims=True)
         elif fidelity == 1:
             cr = cost_ratio
-            eta = np.prod(mf_surrogate._eval_corr(
-                x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
-        return -pi*corr*cr*eta
+            eta = np.prod(1 - mf_surrogate._eval_corr(
+                x, mf_surrogate._get_sample_lf, fidelity=1),
+                axis=1, keepdims=True)
+        else:
+            raise ValueError('Unknown fidelity input.')
+        return (-pi*corr*cr*eta).ravel()
 
     def query(self, mf_surrogate: _mfGaussianProcess,
               cost_ratio: float = 1.0,
-- 
2.43.0


From b21136c44ccc47d089ddf7540eb956be41679e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 22/25] fix: Branin_2 declares a feasible optimum_scheme and
 its value

---
 src/mfpml/problems/sf_cons_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_cons_functions.py b/src/mfpml/problems/sf_cons_functions.py
index d9013f1..234e519 100644
--- a/src/mfpml/problems/sf_cons_functions.py
+++ b/src/mfpml/problems/sf_cons_functions.py
@@ -59,8 +59,8 @@ class Branin_2(Functions):
     num_obj: int = 1
     num_cons: int = 1
     input_domain = np.array([[0, 1], [0.0, 1]])
-    optimum: float = 12.001
-    optimum_scheme: List = [0.941, 0.317]
+    optimum: float = 12.005
+    optimum_scheme: List = [0.94057, 0.31711]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 2678f4b92a869e230f97cb049a9067d53ee848a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 23/25] fix: Sobol samplers accept num_skip=0 (scipy cannot
 fast-forward by 0)

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 0311876..0660617 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -267,7 +267,8 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 8d76d64..ea23b7d 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,7 +311,8 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From 5d4f9066fdc95c910edff05fa1111f09a89ddda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 24/25] fix: CurrinExp low fidelity truncates its shifts for
 integer arrays

---
 src/mfpml/problems/mf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 752be3e..b68c0d6 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -753,8 +753,8 @@ class mf_CurrinExp(MultiFidelityFunctions):
     @staticmethod
     def lf(x: np.ndarray) -> np.ndarray:
 
-        # reshape the input
-        x = np.atleast_2d(x)
+        # reshape the input (the shifts below need floating point numbers)
+        x = np.atleast_2d(x).astype(float)
 
         # calculate the terms
         xx = x.copy()
-- 
2.43.0


From 345c3a089dc39495f2943bfb2df7815af7470a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 25/25] fix: AckleyN2 refuses other dimensions than 2, Ackley
 and Thevenot refuse 0

---
 src/mfpml/problems/sf_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index c476693..0416b4f 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -373,7 +373,8 @@ class Thevenot(Functions):
         m:
         beta
         """
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), (
+            "The dimension must be a positive integer")
         self.num_dim = num_dim
         self.input_domain = np.array(
             [[-2 * np.pi, 2 * np.pi] for _ in range(num_dim)]
@@ -445,7 +446,8 @@ class Ackley(Functions):
         c: float
             Parameters
         """
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), (
+            "The dimension must be a positive integer")
         self.num_dim = num_dim
         self.input_domain = np.array([[-32, 32] for _ in range(num_dim)])
         self.a = a
@@ -513,7 +515,8 @@ class AckleyN2(Functions):
         return d == 2
 
     def __init__(self, num_dim: int = 2) -> None:
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), (
+            f"Can not change dimension for {type(self).__name__} function")
 
     @staticmethod
     def f(x: np.ndarray) -> np.ndarray:
-- 
2.43.0

