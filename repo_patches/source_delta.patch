From 81a6504b530609a745321dd9837a9c3fd2b26000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 01/40] fix: secondary eclipse time is the first one after
 periastron

timeperi_to_timetrans(secondary=True) added 2*pi to every scalar eccentric
anomaly, also when it was already in [0, 2*pi), and could not handle arrays.
---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..8176f8b 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = ee + 2 * np.pi * (ee < 0.0)
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From b27fe7886aa935d0501a8837402758cfc4595e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 02/40] fix: PositiveKPrior excluded log-K bases with K below 1
 m/s

The vector has an index for both k and logk, so the KeyError that was meant to
select logk never came and the logarithm itself was required to be positive.
---
 radvel/prior.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..530a6bd 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -173,11 +173,13 @@ class PositiveKPrior(Prior):
         def _getpar(key, num_planet):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
+        parnames = params.basis.name.split()
+
         for num_planet in range(1, self.num_planets+1):
-            try:
-                k = _getpar('k', num_planet)
-            except KeyError:
+            if 'logk' in parnames:
                 k = np.exp(_getpar('logk', num_planet))
+            else:
+                k = _getpar('k', num_planet)
 
             if k < 0.0:
                 return -np.inf if not finite else -1e100
-- 
2.43.0


From 8e85cebbf2c00842aaba64b1f08747cbb199ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 03/40] fix: nested sampling ignored priors that name their
 parameters in a list

---
 radvel/posterior.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..b1b0071 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -59,7 +59,10 @@ class Posterior(Likelihood):
             try:
                 param = prior.param
             except AttributeError:
-                continue
+                param_list = getattr(prior, 'param_list', [])
+                if len(param_list) != 1:
+                    continue
+                param = param_list[0]
             if param not in prior_dict:
                 prior_dict[param] = [prior]
             else:
@@ -73,6 +76,12 @@ class Posterior(Likelihood):
         """
         vary_params = self.name_vary_params()
         prior_dict = self.get_prior_dict()
+        for prior in self.priors:
+            if len(getattr(prior, 'param_list', [])) > 1 and not prior.extra_constraint:
+                raise ValueError(
+                    "Prior on several parameters {} has no prior transform for nested sampling. "
+                    "Use `extra_constraint=True` to constrain them jointly".format(prior.param_list)
+                )
         for pname in vary_params:
             prior_list = prior_dict.get(pname, [])
             num_priors = len(prior_list)
-- 
2.43.0


From 5b660415813cee60c5bd0c3e07abd0bd3686026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 04/40] fix: extra_likelihood failed for constraint priors that
 do not take a finite argument

---
 radvel/posterior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index b1b0071..fea84e7 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -151,7 +151,9 @@ class Posterior(Likelihood):
         _logprob = 0
         for prior in self.priors:
             if prior.extra_constraint:
-                _logprob += prior(self.params, self.vector, finite=True)
+                prior_logprob = prior(self.params, self.vector)
+                # keep the value finite, nested samplers do not accept -inf
+                _logprob += -1e100 if prior_logprob == -np.inf else prior_logprob
         return _logprob
 
     def extra_likelihood_array(self, param_values_array):
-- 
2.43.0


From 5385e03e6d70e1b691c40352e69e8ccbb8cff77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 05/40] fix: Posterior.aic raised the criterion instead of
 returning it

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index fea84e7..9b29159 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -226,7 +226,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From 3d68255b8cf0f5c3ee01d857852f0072f3beed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 06/40] fix: maxlike_fitting returned the last point tried
 instead of the optimum

---
 radvel/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..6b8656c 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -33,10 +33,11 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
         print("Performing maximum a posteriori fit...")
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
+        res = scipy.optimize.minimize(
             post.neglogprob_array, post.get_vary_params(), method=method,
             options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
-    post.vector.vector_to_dict()
+    # the last point the optimizer tried need not be the best one
+    post.set_vary_params(np.atleast_1d(res.x))
 
     if verbose:
         print("Final loglikelihood = %f" % post.logprob())
-- 
2.43.0


From aa7de5a5b637b1fa2897f26c42512505b71ce613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 07/40] fix: model_comp repeated the results of earlier calls
 (shared default list)

---
 radvel/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 6b8656c..c9f6af7 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -47,7 +47,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -71,6 +71,8 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
 
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
+    if mc_list is None:
+        mc_list = []
     assert isinstance(mc_list, list), \
         "mc_list must be either an empty list or a list of model comparison dictionaries"
     assert isinstance(params, list), \
-- 
2.43.0


From 51e206be2fd0dcbb1ad96280c2336467376b30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 08/40] fix: model_comp moved the parameters of the posterior
 it was given

---
 radvel/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index c9f6af7..64423d2 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -88,7 +88,7 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
     #   to get BIC and AIC values among other diagnostics.
     if not params:
 
-        fitpost = maxlike_fitting(post, verbose=verbose)
+        fitpost = maxlike_fitting(copy.deepcopy(post), verbose=verbose)
 
         ndata = len(fitpost.likelihood.y)
         nfree = len(fitpost.get_vary_params())
-- 
2.43.0


From 11b4b0a78a22d00acf2fd5678b645fc78f157eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 09/40] fix: model comparison without a GP zeroed the
 hyperparameters instead of fixing them

---
 radvel/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 64423d2..30ef223 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -188,14 +188,16 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
             if not allfixed:
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
             post.likelihood.list_vary_params()
-- 
2.43.0


From 332811188956cf9878f145c2057cdca035d0f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 10/40] fix: ic --fixjitter had no effect on the fits

---
 radvel/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..e373c2c 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,9 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+            ipost.vector.dict_to_vector()
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From 23d19821b14de4fdb9cd7163e92f808da69a92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 11/40] fix: array_to_params did not reach the vector the model
 is evaluated from

---
 radvel/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/model.py b/radvel/model.py
index 255089a..4289280 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -301,7 +301,9 @@ class GeneralRVModel(object):
     	vary_parameters = self.list_vary_params()
     	
     	for i in range(len(vary_parameters)):
-    		new_params[vary_parameters[i]] = Parameter(value=param_values[i])
+    		new_params[vary_parameters[i]].value = param_values[i]
+    	# the model is evaluated from the vector
+    	self.vector.dict_to_vector()
     		
     	return new_params
              
-- 
2.43.0


From ebd3916f9c75b12f8b4b231f252011c9b261adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 12/40] fix: draw_models_from_chain took row labels for
 positions

---
 radvel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..f82f01c 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -658,10 +658,10 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
     """
 
     np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    chain_samples = chain.iloc[np.random.choice(len(chain), nsamples)]
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
+    for _, sample in chain_samples.iterrows():
+        params = np.array(sample[mod.list_vary_params()])
         params = mod.array_to_params(params)
         models += [mod(t)]
     models = np.vstack(models)
-- 
2.43.0


From 3bc43cc2d9e317849875355982d9220cdc12f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 13/40] fix: user-defined parameters had no row in the
 parameter vector and never varied

---
 radvel/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/radvel/model.py b/radvel/model.py
index 4289280..376b089 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -206,6 +206,11 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        # user-defined parameters
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From 023bb1b8e627acc2a4c39c9a2380af9b11411b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 14/40] fix: IndexError for instrument parameters set between
 building the model and its likelihoods

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..1dd64ff 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -31,7 +31,7 @@ class Likelihood(object):
         self.y = np.array(y)  # Pandas data structures lead to problems.
         self.yerr = np.array(yerr)
         self.dvec = [np.array(d) for d in decorr_vectors]
-        n = self.vector.vector.shape[0]
+        n = len(self.vector.names)  # next row without a parameter
         for key in extra_params:
             if key not in self.params.keys():
                 self.params[key] = radvel.model.Parameter(value=0.0)
-- 
2.43.0


From 82e0e0683bcf1b0e14d7103a718514863c6ddfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 15/40] fix: v_from_synth freed the argument of periastron
 instead of the conjunction time

---
 radvel/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..4167f14 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -418,7 +418,7 @@ class Basis(object):
                                                                       vector[(5*num_planet)][0],
                                                                       vector[2+(5*num_planet)][0],
                                                                       vector[3+(5*num_planet)][0])
-                setvary([3+(5*num_planet)])
+                setvary([1+(5*num_planet)])
 
             if newbasis == 'per tc se w k':
                 vector2[1 + (5 * num_planet)][0] = timeperi_to_timetrans(vector[1 + (5 * num_planet)][0],
-- 
2.43.0


From c1c0db1f29fcd8ca4c95adc95784fd08e735b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 16/40] fix: from_synth renamed the basis object it was called
 on

---
 radvel/basis.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 4167f14..d0312f8 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -602,9 +602,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -626,9 +623,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -652,9 +646,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -679,9 +670,6 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -703,9 +691,6 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
@@ -726,9 +711,6 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From c8751dadca408a8ac193786da02ccb255d1f7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 17/40] fix: conversion to 'logper tp e w logk' left a tc that
 replaced tp in the parameter vector

---
 radvel/basis.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index d0312f8..1a38a98 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -705,7 +705,6 @@ class Basis(object):
 
                 _setpar('logper', np.log(per))
                 _setpar('logk', np.log(k))
-                _setpar('tc', timeperi_to_timetrans(tp, per, e, w))
 
                 if not kwargs.get('keep', True):
                     _delpar('per')
-- 
2.43.0


From 8954249907f80373c4b9bbed2f82e5bc84e97869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 18/40] fix: from_synth failed for tables of samples
 (keep=False, and bases with secosw, ecosw or logk)

---
 radvel/basis.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 1a38a98..7899341 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -538,11 +538,17 @@ class Basis(object):
                                                                   vary=local_vary,
                                                                   mcmcscale=local_mcmcscale)
 
+            def _haspar(key):
+                if isinstance(params_in, pd.core.frame.DataFrame):
+                    return '{}{}'.format(key, num_planet) in params_in.columns
+                else:
+                    return key in params_in.planet_parameters
+
             def _delpar(key):
                 if isinstance(params_in, OrderedDict):
                     del params_out['{}{}'.format(key, num_planet)]
                 elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                    params_out.drop(columns='{}{}'.format(key, num_planet), inplace=True)
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -584,7 +590,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -607,7 +613,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -628,7 +634,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -651,7 +657,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -675,7 +681,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -696,7 +702,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
-- 
2.43.0


From c40489870f571bcb46abf5352fccb1ce299a8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:51 +0000
Subject: [PATCH 19/40] fix: building a Vector from converted parameters failed
 on vary=''

---
 radvel/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/model.py b/radvel/model.py
index 376b089..ecb7408 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -223,7 +223,7 @@ class Vector(object):
         for key in self.params.keys():
             try:
                 vector[self.indices[key]][0] = self.params[key].value
-                vector[self.indices[key]][1] = self.params[key].vary
+                vector[self.indices[key]][1] = bool(self.params[key].vary)
                 if self.params[key].mcmcscale == None:
                     vector[self.indices[key]][2] = 0
                 else:
-- 
2.43.0


From b19dfaebf64f322f8b2e6e07f19c607f34bf3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:25 +0000
Subject: [PATCH 20/40] fix: to_any_basis left parameters of the old basis that
 replaced the new ones in the parameter vector

---
 radvel/basis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radvel/basis.py b/radvel/basis.py
index 7899341..7414ecc 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -115,6 +115,12 @@ class Basis(object):
         """
         synth_params = self.to_synth(params_in)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
+        # parameters left over from the old basis would share rows of the parameter vector with the new ones
+        for name in set(self.params) - set(newbasis.split()):
+            for num_planet in range(1, 1+self.num_planets):
+                key = '{}{}'.format(name, num_planet)
+                if arbbasis_params is not None and key in arbbasis_params:
+                    del arbbasis_params[key]
         return arbbasis_params
 
     def v_to_any_basis(self, params_in, newbasis):
-- 
2.43.0


From db744f7ac8bd5765c5ae7cb0a6f05a4fb4db2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 21/40] fix: date2jd dropped the fraction of a second

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index f82f01c..7fee91c 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -420,7 +420,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.days + (jd_td.seconds + jd_td.microseconds/1e6)/86400.0
     return jd
 
 
-- 
2.43.0


From d35a6b27997a39e5d46e9ce4c3b61302bba01162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 22/40] fix: decorrelation mixed up variables whose names
 contain one another or an underscore

---
 radvel/likelihood.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 1dd64ff..a526930 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -343,6 +343,7 @@ class RVLikelihood(Likelihood):
         self.decorr_vectors = decorr_vectors
         if len(decorr_vars) > 0:
             self.decorr_params += ['c1_'+d+suffix for d in decorr_vars]
+        self.decorr_vars = list(decorr_vars)
 
         super(RVLikelihood, self).__init__(
             model, t, vel, errvel, extra_params=self.extra_params,
@@ -368,13 +369,8 @@ class RVLikelihood(Likelihood):
         res = self.y - self.vector.vector[self.gamma_index][0] - mod
 
         if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
+            for var, parname in zip(self.decorr_vars, self.decorr_params):
+                pars = [self.vector.vector[self.vector.indices[parname]][0], 0.0]
                 if np.isfinite(self.decorr_vectors[var]).all():
                     vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
                     p = np.poly1d(pars)
-- 
2.43.0


From 729e6fd6f140917beeb127e92acf515d302de31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 23/40] fix: a linear gamma was solved for without the
 decorrelation terms

---
 radvel/likelihood.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index a526930..589f123 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -359,6 +359,14 @@ class RVLikelihood(Likelihood):
         """
         mod = self.model(self.x)
 
+        if len(self.decorr_params) > 0:
+            for var, parname in zip(self.decorr_vars, self.decorr_params):
+                pars = [self.vector.vector[self.vector.indices[parname]][0], 0.0]
+                if np.isfinite(self.decorr_vectors[var]).all():
+                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                    p = np.poly1d(pars)
+                    mod = mod + p(vec)
+
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
             ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
@@ -367,14 +375,6 @@ class RVLikelihood(Likelihood):
             self.vector.vector[self.gamma_index][0] = ztil
 
         res = self.y - self.vector.vector[self.gamma_index][0] - mod
-
-        if len(self.decorr_params) > 0:
-            for var, parname in zip(self.decorr_vars, self.decorr_params):
-                pars = [self.vector.vector[self.vector.indices[parname]][0], 0.0]
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
         return res
 
     def errorbars(self):
-- 
2.43.0


From c7294632ce68e4dc3a838f05de70e6d7ad06e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 24/40] fix: CompositeLikelihood dropped the GP hyperparameters
 of its first instrument and split a single suffix into letters

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 589f123..0e50949 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -250,9 +250,9 @@ class CompositeLikelihood(Likelihood):
         self.yerr = like0.yerr
         self.telvec = like0.telvec
         self.extra_params = like0.extra_params
-        self.suffixes = like0.suffix
+        self.suffixes = [like0.suffix]
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
-- 
2.43.0


From 1f42ff4f9605b880b0702e38c0be16ae1f1e0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 25/40] fix: CompositeLikelihood.y mixed velocities with and
 without the offset subtracted

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 0e50949..7a9078a 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -258,7 +258,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 45f96369ebc044ae8e7e634d12910aea1b1de9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 26/40] fix: QuasiPerKernel with a zero hyperparameter left the
 previous covariance matrix in place and had the wrong shape for predictions

---
 radvel/gp.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..c5a7b84 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -325,30 +325,24 @@ class QuasiPerKernel(Kernel):
             raise ValueError(f"Invalid gp_perlength value: {perlength}")
         
         # If any GP parameter is 0, this is likely a "no GP" model comparison
-        # In this case, return a zero covariance matrix
+        # In this case, use a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
-
-        # Compute covariance matrix step by step
-        exp_term1 = -self.dist_se/(explength**2)
-        exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
-        
-        # Clamp extreme values to prevent overflow
-        exp_term1 = np.clip(exp_term1, -100, 100)
-        exp_term2 = np.clip(exp_term2, -100, 100)
-        
-        # Compute exponential terms
-        exp1 = np.exp(exp_term1)
-        exp2 = np.exp(exp_term2)
-        
-        # Compute final covariance matrix
-        K = np.array(amp**2 * exp1 * exp2)
+            K = np.zeros(self.dist_se.shape)
+        else:
+            # Compute covariance matrix step by step
+            exp_term1 = -self.dist_se/(explength**2)
+            exp_term2 = (-np.sin(np.pi*self.dist_p/per)**2.) / (2.*perlength**2)
+
+            # Clamp extreme values to prevent overflow
+            exp_term1 = np.clip(exp_term1, -100, 100)
+            exp_term2 = np.clip(exp_term2, -100, 100)
+
+            # Compute exponential terms
+            exp1 = np.exp(exp_term1)
+            exp2 = np.exp(exp_term2)
+
+            # Compute final covariance matrix
+            K = np.array(amp**2 * exp1 * exp2)
 
         self.covmatrix = K
 
-- 
2.43.0


From 7550647e9406a1481bb776862541fba8eed46f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 27/40] fix: GPLikelihood.logprob looked up an exception class
 that numpy no longer has

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 7a9078a..69fa9b5 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -504,7 +504,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From 7b8d9b895396931cf6ebcf9a00464c560eb79542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 28/40] fix: the celerite kernel kept the unsorted times while
 errors and residuals are in time order

---
 radvel/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 69fa9b5..878cbc0 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -583,6 +583,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.y = self.y[order]
         self.yerr = self.yerr[order]
         self.N = len(self.x)
+        self.kernel.compute_distances(self.x, self.x)
 
     def logprob(self):
 
-- 
2.43.0


From f3eb42b96e6d9dc70b893a8d374ca10c1c7c2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 29/40] fix: CeleriteKernel accepted additional hyperparameters

---
 radvel/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index c5a7b84..914444d 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -397,7 +397,7 @@ class CeleriteKernel(Kernel):
             if par.startswith('gp_Prot'):
                 self.hparams['gp_Prot'] = hparams[par]
 
-        assert len(self.hparams) == 4, """
+        assert len(hparams) == 4 and len(self.hparams) == 4, """
 CeleriteKernel requires exactly 4 hyperparameters with names 'gp_B', 'gp_C', 'gp_L', and 'gp_Prot'.
         """
 
-- 
2.43.0


From 112e65f8d40d692e445b2bde8b6327aa27cb1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 30/40] fix: celerite predictions were not a number for a
 negative jitter

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 878cbc0..a605398 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -624,7 +624,7 @@ class CeleriteLikelihood(GPLikelihood):
 
         # build celerite kernel with current values of hparams
         kernel = celerite.terms.JitterTerm(
-                log_sigma = np.log(self.vector.vector[self.jit_index][0])
+                log_sigma = np.log(np.abs(self.vector.vector[self.jit_index][0]))
                 )
 
         kernel += celerite.terms.RealTerm(
-- 
2.43.0


From 85fa092894c621db73df789cfc4f38f0db6c32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:18 +0000
Subject: [PATCH 31/40] fix: celerite predictions were wrong for times that are
 not in increasing order

---
 radvel/likelihood.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index a605398..6803baf 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -641,7 +641,12 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.yerr)
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
+
+        # celerite requires the times of the predictions to be in order, too
+        order = np.argsort(xpred)
+        inverse = np.argsort(order)
+        mu, var = gp.predict(self._resids(), np.array(xpred)[order], return_var=True)
+        mu, var = mu[inverse], var[inverse]
 
         stdev = np.sqrt(var)
 
-- 
2.43.0


From 9b7721e4687b20ada8303314835f543a2ab224b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 32/40] fix: a failed GP prediction left the kernel at the
 predicted times

---
 radvel/likelihood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6803baf..d44866f 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -532,10 +532,11 @@ class GPLikelihood(RVLikelihood):
         if np.any(np.isinf(K)):
             raise ValueError("Covariance matrix K contains infs - cannot proceed with Cholesky decomposition")
 
+        L = cho_factor(K)
+
         self.kernel.compute_distances(xpred, self.x)
         Ks = self.kernel.compute_covmatrix(0.)
 
-        L = cho_factor(K)
         alpha = cho_solve(L, r)
         mu = np.dot(Ks, alpha).flatten()
 
-- 
2.43.0


From f14b8acd4e0c935eb84d35affc4ddc38371a30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:16 +0000
Subject: [PATCH 33/40] fix: arrays with an unbound orbit did not return that
 element unconverted

---
 radvel/orbit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 8176f8b..bef4683 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -25,7 +25,10 @@ def timetrans_to_timeperi(tc, per, ecc, omega):
 
     f = np.pi/2 - omega
     ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-    tp = tc - per/(2*np.pi) * (ee - ecc*np.sin(ee))      # time of periastron
+    dt = per/(2*np.pi) * (ee - ecc*np.sin(ee))
+    if np.ndim(ecc) > 0:
+        dt = np.where(ecc >= 1, 0.0, dt)                         # unbound orbits, as above
+    tp = tc - dt                                                # time of periastron
 
     return tp
 
@@ -61,7 +64,10 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
-    tc = tp + per/(2*np.pi) * (ee - ecc*np.sin(ee))         # time of conjunction
+    dt = per/(2*np.pi) * (ee - ecc*np.sin(ee))
+    if np.ndim(ecc) > 0:
+        dt = np.where(ecc >= 1, 0.0, dt)                         # unbound orbits, as above
+    tc = tp + dt                                            # time of conjunction
 
     return tc
 
-- 
2.43.0


From 5021c5d57ffefb3465f48598e4ddb9fc60649615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:28 +0000
Subject: [PATCH 34/40] fix: Gelman-Rubin and Tz did not follow the published
 formulas

---
 radvel/mcmc.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..49e5059 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -559,13 +559,17 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     assert nsteps > 1, msg
 
     # Equation 21: W(z) in Ford 2006
-    variances = np.var(pars,axis=1, dtype=np.float64)
-    meanofvariances = np.mean(variances,axis=1)
+    variances = np.var(pars,axis=1, ddof=1, dtype=np.float64)
     withinChainVariances = np.mean(variances, axis=1)
 
     # Equation 23: B(z) in Ford 2006
     means = np.mean(pars,axis=1)
-    betweenChainVariances = np.var(means,axis=1, dtype=np.float64) * nsteps
+    if nchains != 1:
+        betweenChainVariances = np.var(means,axis=1, ddof=1, dtype=np.float64) * nsteps
+    else:
+        betweenChainVariances = np.zeros(sz[0])
+
+    # Equation 24: varhat+(z) in Ford 2006
     varEstimate = (
         (1.0 - 1.0/nsteps) * withinChainVariances
         + 1.0 / nsteps * betweenChainVariances
@@ -574,15 +578,9 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     # Tz calculation will yield only NaNs if nchains = 1.
     # Avoid calculation and warning by skipping explicitly
     if nchains != 1:
-        varianceofmeans = np.var(means,axis=1, dtype=np.float64) / (nchains-1)
-        bz = varianceofmeans * nsteps
-        # Equation 24: varhat+(z) in Ford 2006
-        varz = (nsteps-1.0)/bz + varianceofmeans
         # Equation 26: T(z) in Ford 2006
-        vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        vbz = varEstimate / betweenChainVariances
+        tz = nchains*nsteps*np.minimum(vbz, 1)
     else:
         tz = [-1]
         minTz = -np.inf
-- 
2.43.0


From 3df3d5ea715b03765ffa0cf34802a1aab89847ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:14 +0000
Subject: [PATCH 35/40] fix: geterr(angular=True) wrapped the angles in the
 caller's samples

The summary of an angle shifted samples in place: a numpy chain was changed for
good, and a pandas column (read-only values) could not be summarised at all.
---
 radvel/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radvel/utils.py b/radvel/utils.py
index 7fee91c..b5bab10 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -462,6 +462,7 @@ def geterr(vec, angular=False):
         pass
 
     if angular:
+        vec = np.array(vec)     # the chains belong to the caller
         val, edges = np.histogram(vec, bins=50)
         med = edges[np.argmax(val)]
         if med > np.radians(90):
-- 
2.43.0


From 0f8d26d1f5bfaf04f72bd80aafe0bbb2b2a28c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 36/40] fix: dynesty could not run in an existing directory
 without a checkpoint

With overwrite=True or proceed=True (or a directory made beforehand), os.makedirs
raised FileExistsError when the output directory held no sampler.save.
---
 radvel/nested_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..cebdeae 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -85,7 +85,7 @@ def _run_dynesty(
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From c45631073b815f841485523b76761583c674e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:24 +0000
Subject: [PATCH 37/40] fix: nested-sampling backends wrote into the caller's
 keyword dictionaries

'resume', 'checkpoint_file', 'log_dir', .. were stored in the dictionaries passed
as run_kwargs and sampler_kwargs, so a second run with the same dictionaries was
refused ('resume' not supported).
---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index cebdeae..df52485 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From f5cc54b928117cab636292b3b9d3fa5e8e331782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:29 +0000
Subject: [PATCH 38/40] fix: convert logjit parameters of a setup file without
 changing the dictionary being iterated

---
 radvel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index b5bab10..b4a63cc 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -77,7 +77,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
-- 
2.43.0


From 9400f8d8af10afb0692f5d28173231f33295b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:51 +0000
Subject: [PATCH 39/40] fix: the report listed the printed basis twice instead
 of the fitted one

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..0dd4288 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -187,7 +187,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
-- 
2.43.0


From f3334fd8d03fc7016851ba64df40f5463ccac595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:07 +0000
Subject: [PATCH 40/40] fix: drawing up the derived parameters rescaled the
 samples of the caller, so that a second table had wrong units

---
 radvel/plot/mcmc_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..8cc7879 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -178,7 +178,8 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        # the masses are rescaled below, the samples given are not to be changed
+        self.chains = chains.copy()
         self.saveplot = saveplot
 
         if 'planet_letters' in dir(P):
-- 
2.43.0

