From d3b1131303b702162f8f988cea9b814f952db200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 01/66] fix: store the draw probability under the name it is
 loaded from

Population._writeto wrote the dataset 'probabilty' while _loadfrom looks for
'probability', so the probability was silently lost in an HDF5 round trip.
---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From af79229580fd964f9c34cb57b61edbca0110d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 02/66] fix: restore the name and the forms of a stored
 population as they were

They were stored as bytes, so after loading the name was a bytes object and
the forms read "b'...'"; a form that is None came back as the text 'None'.
---
 popsynth/population.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..05e5f74 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -599,15 +599,19 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+                f.attrs["lf_form"] = self._lf_form
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+        if self._name is not None:
+            f.attrs["name"] = self._name
+
+        if self._spatial_form is not None:
+            f.attrs["spatial_form"] = self._spatial_form
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +727,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _read_string(f.attrs, "lf_form")
 
             else:
 
@@ -739,9 +743,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = _read_string(f.attrs, "name")
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = _read_string(f.attrs, "spatial_form")
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
@@ -1339,6 +1343,21 @@ class Population(object):
         # sns.despine(offset=5, trim=True);
 
 
+def _read_string(attrs, key: str) -> Optional[str]:
+    """
+    Read a string that was stored as bytes in the
+    attributes of an HDF5 file or group
+    """
+
+    value = attrs.get(key, None)
+
+    if isinstance(value, bytes):
+
+        return value.decode("utf-8")
+
+    return value
+
+
 def _create_sphere_variables(R, distance, theta, phi):
     x, y, z = xyz(distance, theta, phi)
 
-- 
2.43.0


From 206c4c532f40615f470a8856f7ec48eef15b7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 03/66] fix: load the graph of a stored population as a
 directed graph

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 05e5f74..6c6e485 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -796,7 +796,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 1b64472460a71004fa9fc9ed268bbf56255ec8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 04/66] fix: keep the known distances and the synth in a sub
 population

to_sub_population looked up object indices among the known distance values,
so the known distances were lost, and it dropped the pop_synth dictionary,
without which the sub population could not be written to a file.
---
 popsynth/population.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 6c6e485..a67bf77 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -872,25 +872,21 @@ class Population(object):
 
             new_aux = None
 
-        itr = 0
-        known_distances = []
-        known_distance_idx = []
-        unknown_distance_idx = []
+        # the indices of the known and unknown distances count the
+        # observed objects. The distances of unobserved objects are
+        # never known
 
-        for i, s in enumerate(selection):
-
-            if s:
-
-                if i in self._known_distances:
-
-                    known_distances.append(self._distances[i])
-                    known_distance_idx.append(itr)
+        if observed:
 
-                else:
+            known_distances = np.array(self._known_distances)
+            known_distance_idx = np.array(self._known_distance_idx)
+            unknown_distance_idx = np.array(self._unknown_distance_idx)
 
-                    unknown_distance_idx.append(itr)
+        else:
 
-                itr += 1
+            known_distances = np.array([])
+            known_distance_idx = np.array([], dtype=int)
+            unknown_distance_idx = np.arange(sum(selection))
 
         if self._probability is not None:
 
@@ -903,9 +899,9 @@ class Population(object):
         return Population(
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
-            known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distances=known_distances,
+            known_distance_idx=known_distance_idx,
+            unknown_distance_idx=unknown_distance_idx,
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
@@ -924,6 +920,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From 650b6d5b1528a018adfbd8541a23ba33519a9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 05/66] fix: give the selected and non selected values boolean
 selections

np.ones_like took over the type of the values, and a float selection cannot
be used as a mask, so x.selected.selected raised an IndexError.
---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..4d5c9e7 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones(len(selected), dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros(len(non_selected), dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From 069de56b98fb5a2716a226f123da390c0837268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 06/66] fix: apply operations performed in place to observed
 and latent values

With an output argument (x += 1) the latent result was written over the
observed values and the latent values were left as they were.
---
 popsynth/simulated_variable.py | 54 +++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 4d5c9e7..e83acf5 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -54,7 +54,13 @@ class SimulatedVariable(np.ndarray):
         # the selection on the value
         obj._selection: np.ndarray = selection
 
-        # the latent values of the variable
+        # the latent values of the variable. They must not live in the
+        # memory of the observed ones, or an operation performed in place
+        # would be applied to them twice
+        if np.may_share_memory(obj, latent_values):
+
+            latent_values = np.array(latent_values)
+
         obj._latent_values: np.ndarray = latent_values
 
         # Finally, we must return the newly created object:
@@ -114,6 +120,26 @@ class SimulatedVariable(np.ndarray):
 
         self._latent_values = getattr(obj, "_latent_values", None)
 
+    def copy(self, order="C") -> "SimulatedVariable":
+        """
+        A copy of the observed values, the latent values
+        and the selection
+        """
+
+        return SimulatedVariable(
+            self.view(np.ndarray).copy(order),
+            np.array(self._latent_values),
+            np.array(self._selection),
+        )
+
+    def __copy__(self) -> "SimulatedVariable":
+
+        return self.copy()
+
+    def __deepcopy__(self, memo) -> "SimulatedVariable":
+
+        return self.copy()
+
     def __getitem__(self, item):
 
         obs = self.view(np.ndarray).__getitem__(item)
@@ -146,15 +172,29 @@ class SimulatedVariable(np.ndarray):
 
         outputs = out
         out_no = []
+        latent_kwargs = dict(kwargs)
         if outputs:
+
+            # the results are computed in copies of the outputs, so that
+            # neither the observed nor the latent results can overwrite
+            # values which are still needed
             out_args = []
+            latent_out_args = []
             for j, output in enumerate(outputs):
                 if isinstance(output, SimulatedVariable):
                     out_no.append(j)
-                    out_args.append(output.view(np.ndarray))
+                    out_args.append(output.view(np.ndarray).copy())
+                    latent_out_args.append(
+                        np.array(output._latent_values.view(np.ndarray))
+                    )
+                elif output is None:
+                    out_args.append(None)
+                    latent_out_args.append(None)
                 else:
-                    out_args.append(output)
+                    out_args.append(np.array(output))
+                    latent_out_args.append(np.array(output))
             kwargs['out'] = tuple(out_args)
+            latent_kwargs['out'] = tuple(latent_out_args)
         else:
             outputs = (None,) * ufunc.nout
 
@@ -167,7 +207,7 @@ class SimulatedVariable(np.ndarray):
         results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
         if results is NotImplemented:
@@ -209,6 +249,12 @@ class SimulatedVariable(np.ndarray):
 
             else:
 
+                output.view(np.ndarray)[...] = result
+
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values[...] = latent_result
+
                 out = output
 
             final_results.append(out)
-- 
2.43.0


From 8c17b17a1734a9acc4b548735d76924568123581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 07/66] fix: normalize the log10 normal luminosity distribution

The density in L carries a factor of 1 / ln(10), without which it integrates
to 2.3.
---
 popsynth/distributions/log10_normal_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..237fbfd 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,9 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (
+            1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))
+        ) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 6de27e9830a2396edabce3d472cb9329e53b9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 08/66] fix: draw every survey from scratch

A second draw_survey of the same synth reused the sampled auxiliary values
and selections of the first one, whatever had been changed in between, and
failed when the number of objects was a different one.
---
 popsynth/population_synth.py | 49 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..52f4764 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -124,6 +124,27 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         # add the sky sampler
 
+    def _reset(self) -> None:
+        """
+        Reset all of the attached samplers and selections
+        """
+
+        for k, v in self._auxiliary_observations.items():
+
+            v.reset()
+
+        if self._derived_luminosity_sampler is not None:
+
+            self._derived_luminosity_sampler.reset()
+
+        self._flux_selector.reset()
+
+        self._distance_selector.reset()
+
+        if self._spatial_selector is not None:
+
+            self._spatial_selector.reset()
+
     def clean(self, reset: bool = False):
         """
         Clean the auxiliary samplers, selections, etc
@@ -135,20 +156,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if reset:
 
-            for k, v in self._auxiliary_observations.items():
-
-                v.reset()
+            self._reset()
 
         log.warning("removing all registered Auxiliary Samplers")
 
         self._auxiliary_observations = {}
 
-        if reset:
-
-            if self._derived_luminosity_sampler is not None:
-
-                self._derived_luminosity_sampler.reset()
-
         self._derived_luminosity_sampler = None
 
         self._has_derived_luminosity = False
@@ -159,28 +172,14 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.warning("removing flux selector")
 
-        if reset:
-
-            self._flux_selector.reset()
-
         self._flux_selector = UnitySelection(name="unity flux selector")
 
         log.warning("removing distance selector")
 
-        if reset:
-
-            self._distance_selector.reset()
-
         self._distance_selector = UnitySelection(name="unity distance selector")
 
         log.warning("removing spatial selector")
 
-        if reset:
-
-            if self._spatial_selector is not None:
-
-                self._spatial_selector.reset()
-
         self._spatial_selector = None
 
     def write_to(self, file_name: str) -> None:
@@ -966,6 +965,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
             self._spatial_distribution.name
         ] = self._spatial_distribution.truth
 
+        # forget the values and selections of any previous survey
+
+        self._reset()
+
         # set the random seed
 
         np.random.seed(self._seed)
-- 
2.43.0


From f35d4e3c04ec0cb4747058ef32691f97ed50bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 09/66] fix: do not consume the dictionary passed to from_dict

---
 popsynth/population_synth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 52f4764..035e68d 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1,3 +1,4 @@
+import copy
 from abc import ABCMeta
 from collections import OrderedDict
 from typing import Any, Dict, Optional, Union
@@ -344,6 +345,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`PopulationSynth`
         """
 
+        # the entries are consumed below, so do not
+        # touch the dictionary of the caller
+
+        input = copy.deepcopy(input)
+
         if "luminosity distribution" in input:
 
             # try:
-- 
2.43.0


From 794b78160f1bba28abd3821860424b90df76f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 10/66] fix: write the registered type of a derived luminosity
 sampler

to_dict wrote its name instead, which from_dict cannot look up.
---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 035e68d..81745c1 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -302,7 +302,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From c1293e3a16c955acc51b86d9fff0753822636f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 11/66] fix: keep the order of the samplers when a synth is
 stored

The samplers draw from one random stream in the order in which they were
added, so a synth that comes back from a YAML or HDF5 file with its samplers
sorted by name draws a different survey. Restored flags are plain booleans.
---
 popsynth/population_synth.py | 11 ++++++++---
 popsynth/utils/hdf5_utils.py | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 81745c1..face0b4 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -196,6 +196,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
@@ -394,7 +395,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         tmp = input["spatial distribution"]
 
-        sd_name = list(tmp.keys())[0]
+        sd_name = [k for k in tmp.keys() if k != "is_rate"][0]
 
         spatial_distribution: SpatialDistribution = distribution_registry[
             sd_name
@@ -414,7 +415,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            # if it is not specified, then keep the default
+
+            if "is_rate" in tmp:
+
+                spatial_distribution._is_rate = bool(tmp["is_rate"])
 
         seed: int = input["seed"]
 
@@ -559,7 +564,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # first we extract the required info
 
                 sampler_name = v.pop("type")
-                is_observed = v.pop("observed")
+                is_observed = bool(v.pop("observed"))
 
                 # now we extract the selection
                 # and secondary if they are there
diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..d7a2f37 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -13,6 +13,12 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     :param dic: Dictionary to save
     :type dic: Dict[Any, Any]
     """
+    # remember the order of the entries
+
+    if path not in h5file:
+
+        h5file.create_group(path, track_order=True)
+
     for key, item in dic.items():
 
         if isinstance(item, list):
@@ -57,9 +63,12 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 h5file[path + "/" + key] = "FILL_VALUE"
 
-            recursively_save_dict_contents_to_group(
-                h5file, path + "/" + key + "/", item
-            )
+            else:
+
+                recursively_save_dict_contents_to_group(
+                    h5file, path + "/" + key + "/", item
+                )
+
         else:
             raise ValueError("Cannot save %s type" % type(item))
 
-- 
2.43.0


From 8cef8d44085407fb08a419466a59e863ca3d6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 12/66] fix: restore inherited parameters of an auxiliary
 selection

from_dict only looked for the parameters of the selection of an auxiliary
sampler in the class itself, e.g. the boundary of a HardFluxSelection was
dropped.
---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index face0b4..bbcdd8e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -700,9 +700,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 8a85f3595cef4992aecb5d2464aff64da6ce5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 13/66] fix: store the variable on which a selection acts

A selection on e.g. the luminosity that is attached to an auxiliary sampler
came back from to_dict/from_dict as a selection on the sampled values.
---
 popsynth/auxiliary_sampler.py                 |  7 ++-
 popsynth/population_synth.py                  | 22 +++++---
 .../selection_probability.py                  | 56 +++++++++++++++++++
 3 files changed, 77 insertions(+), 8 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..d6fde00 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -10,6 +10,9 @@ from numpy.typing import ArrayLike
 
 from popsynth.distribution import SpatialContainer
 from popsynth.selection_probability import SelectionProbability, UnitySelection
+from popsynth.selection_probability.selection_probability import (
+    selection_parameters,
+)
 from popsynth.utils.cosmology import cosmology
 from popsynth.utils.logging import setup_logger
 from popsynth.utils.meta import Parameter, ParameterMeta
@@ -541,7 +544,9 @@ class AuxiliarySampler(
         tmp["secondary"] = list(self.secondary_samplers.keys())
 
         selection = {}
-        selection[self.selector._selection_name] = self.selector.parameters
+        selection[self.selector._selection_name] = selection_parameters(
+            self.selector, "use_obs_value"
+        )
 
         tmp["selection"] = selection
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index bbcdd8e..b0de0c2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -22,6 +22,10 @@ from popsynth.distributions.cosmological_distribution import (
 )
 from popsynth.population import Population
 from popsynth.selection_probability import SelectionProbability, UnitySelection
+from popsynth.selection_probability.selection_probability import (
+    selection_parameters,
+    set_selection_variable,
+)
 from popsynth.utils.logging import setup_logger
 from popsynth.utils.registry import (
     auxiliary_parameter_registry,
@@ -249,7 +253,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             flux_selection[
                 self._flux_selector._selection_name
-            ] = self._flux_selector.parameters
+            ] = selection_parameters(self._flux_selector, "use_flux")
 
             output["flux selection"] = flux_selection
 
@@ -259,7 +263,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             distance_selection[
                 self._distance_selector._selection_name
-            ] = self._distance_selector.parameters
+            ] = selection_parameters(self._distance_selector, "use_distance")
 
             output["distance selection"] = distance_selection
 
@@ -289,7 +293,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
             tmp["secondary"] = list(v.secondary_samplers.keys())
 
             selection = {}
-            selection[v.selector._selection_name] = v.selector.parameters
+            selection[v.selector._selection_name] = selection_parameters(
+                v.selector, "use_obs_value"
+            )
 
             tmp["selection"] = selection
 
@@ -319,7 +325,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
             selection = {}
             selection[
                 self._derived_luminosity_sampler.selector._selection_name
-            ] = self._derived_luminosity_sampler.selector.parameters
+            ] = selection_parameters(
+                self._derived_luminosity_sampler.selector, "use_obs_value"
+            )
 
             tmp["selection"] = selection
 
@@ -469,7 +477,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                             break
 
                 # oh yes we are doing that
-                fs._use_flux = True
+                set_selection_variable(fs, params, "use_flux")
 
                 pop_synth.set_flux_selection(fs)
 
@@ -509,7 +517,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                             break
 
-                ds._use_distance = True
+                set_selection_variable(ds, params, "use_distance")
 
                 pop_synth.set_distance_selection(ds)
 
@@ -708,7 +716,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                                 break
 
-                    selector._use_obs_value = True
+                    set_selection_variable(selector, params, "use_obs_value")
 
                     tmp.set_selection_probability(selector)
 
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..00e5b92 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -193,3 +193,59 @@ class DummySelection(SelectionProbability):
 
     def draw(self, size=1):
         pass
+
+
+# the variables a selection can act on. If several of them are
+# switched on, the last one is used
+
+_selection_variables = (
+    "use_distance",
+    "use_obs_value",
+    "use_luminosity",
+    "use_flux",
+)
+
+
+def selection_parameters(
+    selector: SelectionProbability, default: str
+) -> Dict[str, float]:
+    """
+    The parameters of a selection along with the variable it acts on,
+    if that is not the default of the place where it is used.
+
+    :param selector: The selection
+    :type selector: :class:`SelectionProbability`
+    :param default: The variable that is used if none is specified
+    :type default: str
+    """
+
+    out = dict(selector.parameters)
+
+    variables = [v for v in _selection_variables if getattr(selector, f"_{v}")]
+
+    if variables and variables[-1] != default:
+
+        out[variables[-1]] = True
+
+    return out
+
+
+def set_selection_variable(
+    selector: SelectionProbability, params: Dict[str, float], default: str
+) -> None:
+    """
+    Set the variable on which a selection acts
+
+    :param selector: The selection
+    :type selector: :class:`SelectionProbability`
+    :param params: The stored parameters of the selection
+    :type params: Dict[str, float]
+    :param default: The variable that is used if none is specified
+    :type default: str
+    """
+
+    variables = [v for v in _selection_variables if params.get(v, False)]
+
+    for variable in variables or [default]:
+
+        setattr(selector, f"_{variable}", True)
-- 
2.43.0


From 0700a064563d38512647e7d0c2c2630f851e41fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 14/66] fix: let any auxiliary selection act on the distance

LowerBound(use_distance=True) failed on a sampler that does not itself use
the distance.
---
 popsynth/auxiliary_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index d6fde00..6a8e59b 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -336,10 +336,16 @@ class AuxiliarySampler(
 
                 log.info(f"{self.name} is sampling its secondary quantities")
 
-            if self._uses_distance:
+            try:
 
                 self._selector.set_distance(self._distance)
 
+            except (AttributeError):
+
+                log.debug("tried to set distance, but could not")
+
+                pass
+
             try:
 
                 self._selector.set_luminosity(self._luminosity)
-- 
2.43.0


From 78f27454b66488f9c96731e2fd96fa7b30297b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 15/66] fix: pass the luminosities on to the secondaries of
 secondaries

Only the direct secondaries of a sampler received them.
---
 popsynth/auxiliary_sampler.py |  7 +++++++
 popsynth/population_synth.py  | 16 +---------------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 6a8e59b..21936e7 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -372,6 +372,13 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
+                # a derived luminosity sampler has
+                # no luminosities to pass on
+
+                if hasattr(self, "_luminosity"):
+
+                    v.set_luminosity(self._luminosity)
+
                 v.draw(size=size)
 
             # Now, it is assumed that if this sampler depends on the previous samplers,
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b0de0c2..e0449a2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1222,24 +1222,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
             v.set_luminosity(luminosities)
             v.set_spatial_values(self._spatial_distribution.spatial_values)
 
-            # also set luminosities and distances to secondaries
-            # as needed
-
-            for k2, v2 in v.secondary_samplers.items():
-
-                if v2.uses_luminosity:
-
-                    v2.set_luminosity(luminosities)
-
-                if v2.uses_distance:
-
-                    v2.set_spatial_values(
-                        self._spatial_distribution.spatial_values
-                    )
-
             # sample the true and obs
             # values which are held internally
             # this will also invoke secondary samplers
+            # and pass on the luminosities and distances to them
 
             v.draw(size=n)
 
-- 
2.43.0


From 4895e5765a948d9001165289b1284ed415332424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 16/66] fix: store the truths of the secondaries of secondaries

---
 popsynth/auxiliary_sampler.py | 13 +++++++++++++
 popsynth/population_synth.py  | 15 ++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 21936e7..a977d7b 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -685,6 +685,19 @@ class AuxiliarySampler(
 
         return out
 
+    def get_truths(self) -> Dict[str, Dict[str, float]]:
+        """
+        The true parameters of this sampler and all
+        of its secondaries by the names of the samplers
+        """
+        out = {self._name: self.truth}
+
+        for k, v in self._secondary_samplers.items():
+
+            out.update(v.get_truths())
+
+        return out
+
     @property
     def uses_distance(self) -> bool:
         """
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index e0449a2..5261db3 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1184,7 +1184,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # this will _could_ be clobbered later
                 # but that is ok
 
-                truth[v2.name] = v2.truth
+                truth.update(v2.get_truths())
 
         else:
 
@@ -1229,8 +1229,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             v.draw(size=n)
 
-            # store the auxilliary truths
-            truth[v.name] = v.truth
+            # store the auxilliary truths along
+            # with those of all the secondaries
+            truth.update(v.get_truths())
 
             # check to make sure we sampled!
             assert v.true_values is not None and len(v.true_values) == n
@@ -1238,14 +1239,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             auxiliary_quantities += v.get_secondary_properties()
 
-            # collect the secondary values
-
-            for k2, v2 in v.secondary_samplers.items():
-
-                # store the secondary truths
-
-                truth[v2.name] = v2.truth
-
         # pbar.update()
 
         # now draw all the observed fluxes
-- 
2.43.0


From 72092fe409376fe0e4b27167ffdad576da0a1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 17/66] fix: build the graph from the current configuration

Nodes of samplers that had been cleaned away stayed, all the populations
shared one graph, a nested secondary which uses the distance raised an
AttributeError, and the edges of the distance and of the observed values were
only drawn for some of the samplers. The graph and the repr of a synth that
has no luminosities yet raised as well.
---
 popsynth/auxiliary_sampler.py |  4 +-
 popsynth/population_synth.py  | 79 ++++++++++++++---------------------
 2 files changed, 33 insertions(+), 50 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index a977d7b..f805f61 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -494,12 +494,12 @@ class AuxiliarySampler(
                     graph.add_edge(k, primary)
 
                     if v.observed:
-                        graph.add_node(v.obs_name, observed=False)
+                        graph.add_node(v.obs_name, observed=True)
                         graph.add_edge(k, v.obs_name)
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 5261db3..d447b5d 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1457,15 +1457,17 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
     def __repr__(self) -> str:
 
+        out = ""
+
         if self._has_derived_luminosity:
 
-            out = "Luminosity Function\n"
+            out += "Luminosity Function\n"
 
             out += self._derived_luminosity_sampler.__repr__()
 
         elif self._luminosity_distribution is not None:
 
-            out = "Luminosity Function\n"
+            out += "Luminosity Function\n"
 
             out += self._luminosity_distribution.__repr__()
 
@@ -1510,43 +1512,30 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start over as the configuration may have
+        # changed since the last time
+
+        self._graph = nx.DiGraph()
+
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
         self._graph.add_edge(self._spatial_distribution.name, "obs_flux")
-        if self._has_derived_luminosity:
 
-            self._graph.add_node(self._derived_luminosity_sampler.name)
+        if self._has_derived_luminosity:
 
             self._graph.add_edge(
                 self._derived_luminosity_sampler.name, "obs_flux"
             )
 
-            if self._derived_luminosity_sampler.uses_distance:
+            self._add_to_graph(self._derived_luminosity_sampler)
 
-                self._graph.add_edge(
-                    self._spatial_distribution.name,
-                    self._derived_luminosity_sampler.name,
-                )
-
-            for (
-                k2,
-                v2,
-            ) in self._derived_luminosity_sampler.secondary_samplers.items():
-
-                self._graph.add_node(k2)
-                self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
-
-                # pass the graph and the primary
-
-                _ = v2.get_secondary_properties(
-                    graph=self._graph,
-                    primary=k2,
-                    spatial_distribution=self._spatial_distribution,
-                )
+        elif self._luminosity_distribution is not None:
 
-        else:
             self._graph.add_edge(self._luminosity_distribution.name, "obs_flux")
+
         # now do the same fro everything else
 
         for k, v in self._auxiliary_observations.items():
@@ -1555,35 +1544,29 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 not v.is_secondary
             ), "This is a secondary sampler. You cannot sample it in the main sampler"
 
-            self._graph.add_node(k, observed=False)
+            self._add_to_graph(v)
 
-            if v.observed:
-                self._graph.add_node(v.obs_name, observed=False)
-                self._graph.add_edge(k, v.obs_name)
-
-                if v.uses_distance:
+    def _add_to_graph(self, sampler: AuxiliarySampler) -> None:
+        """
+        Add a sampler and all of its secondaries to the graph.
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+        :param sampler: The sampler
+        :type sampler: :class:`AuxiliarySampler`
+        """
 
-            for k2, v2 in v.secondary_samplers.items():
+        self._graph.add_node(sampler.name, observed=False)
 
-                # first we tell the sampler to go and retrieve all of
-                # its own secondaries
+        if sampler.observed:
 
-                self._graph.add_edge(k2, k)
-                self._graph.add_node(k2, observed=False)
+            self._graph.add_node(sampler.obs_name, observed=True)
+            self._graph.add_edge(sampler.name, sampler.obs_name)
 
-                if v2.uses_distance:
+        if sampler.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k2)
+            self._graph.add_edge(self._spatial_distribution.name, sampler.name)
 
-                if v2.observed:
+        for k, v in sampler.secondary_samplers.items():
 
-                    self._graph.add_node(v2.obs_name, observed=True)
-                    self._graph.add_edge(k2, v2.obs_name)
+            self._graph.add_edge(v.name, sampler.name)
 
-                _ = v2.get_secondary_properties(
-                    graph=self._graph,
-                    primary=k2,
-                    spatial_distribution=self._spatial_distribution,
-                )
+            self._add_to_graph(v)
-- 
2.43.0


From 5a5f66d26baed62ac10d0356a7e84a7a936e056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 18/66] fix: draw a survey in which no distance is known

Detected objects without a single known distance raised in a log message.
---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index d447b5d..b8009de 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1362,13 +1362,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
-        else:
+        elif global_selection.n_selected == 0:
 
             log.warning("No Objects detected")
 
-- 
2.43.0


From 99543c260d15c9c8f1dd89ae50d3391211d67649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 19/66] fix: hand the distances to the distance selection

A distance selection by value, e.g. UpperBound(use_distance=True), raised a
TypeError since it never received the values it selects on.
---
 popsynth/population_synth.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b8009de..a39da12 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1352,6 +1352,14 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        # the distance selection is applied to the detected objects
+
+        detected = global_selection.selection
+
+        self._distance_selector.set_distance(distances[detected])
+        self._distance_selector.set_luminosity(luminosities[detected])
+        self._distance_selector.set_observed_flux(flux_obs[detected])
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From 0256b5a1c913a6f1c32dbeaedb1eb757eaae7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 20/66] fix: give a population its own copy of the parameters

It kept the live parameter dictionaries of the synth, so that setting a
parameter afterwards changed the populations which had already been drawn.
---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index a39da12..8d6e2fc 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1385,7 +1385,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1404,8 +1404,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces={k: v.copy() for k, v in self._model_spaces.items()},
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From c164fedecfb8561c580c9b4de95c241a2cc6c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 21/66] fix: know the parameters which have their default
 values from the start

They were only recorded once they had been read, so the truth of a first
survey lacked them and the stored form of a synth changed by drawing from it.
---
 popsynth/auxiliary_sampler.py                 | 10 ++++-
 popsynth/distribution.py                      | 10 ++++-
 .../selection_probability.py                  |  8 +++-
 popsynth/utils/meta.py                        | 40 +++++++++++++++++++
 4 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index f805f61..d1e364b 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -15,7 +15,11 @@ from popsynth.selection_probability.selection_probability import (
 )
 from popsynth.utils.cosmology import cosmology
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    get_default_values,
+)
 from popsynth.utils.registry import auxiliary_parameter_registry
 
 log = setup_logger(__name__)
@@ -197,7 +201,9 @@ class AuxiliarySampler(
         :type uses_sky_position: bool
         """
 
-        self._parameter_storage: Dict[str, float] = {}
+        self._parameter_storage: Dict[str, float] = get_default_values(
+            type(self)
+        )
         self._name: str = name
         self._obs_name: str = "%s_obs" % name
 
diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..8a8a190 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -11,7 +11,11 @@ from numpy.typing import ArrayLike
 
 from popsynth.utils.configuration import popsynth_config
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    get_default_values,
+)
 from popsynth.utils.progress_bar import progress_bar
 from popsynth.utils.registry import distribution_registry
 from popsynth.utils.rejection_sample import rejection_sample
@@ -42,7 +46,9 @@ class Distribution(
         :type form: str
         """
 
-        self._parameter_storage: Dict[str, float] = {}
+        self._parameter_storage: Dict[str, float] = get_default_values(
+            type(self)
+        )
         self._normalization_parameter: Optional[str] = None
 
         self._seed = seed  # type: int
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index 00e5b92..c1efa26 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -5,7 +5,11 @@ import numpy as np
 from class_registry import AutoRegister
 
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    get_default_values,
+)
 from popsynth.utils.registry import selection_registry
 
 log = setup_logger(__name__)
@@ -46,7 +50,7 @@ class SelectionProbability(
 
         self._name = name  # type: str
 
-        self._parameter_storage = {}
+        self._parameter_storage = get_default_values(type(self))
 
         self._observed_flux = None  # type: np.ndarray
         self._observed_value = None  # type: np.ndarray
diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..a1f14da 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -134,6 +134,46 @@ class Parameter(object):
     )
 
 
+def get_parameters(cls) -> Dict[str, Parameter]:
+    """
+    All the parameters of a class including the inherited ones.
+
+    :param cls: The class
+    """
+
+    out: Dict[str, Parameter] = {}
+
+    for x in reversed(cls.__mro__):
+
+        for k, v in x.__dict__.items():
+
+            if isinstance(v, Parameter):
+
+                out[k] = v
+
+            else:
+
+                # a subclass may hide a parameter
+
+                out.pop(k, None)
+
+    return out
+
+
+def get_default_values(cls) -> Dict[str, float]:
+    """
+    The values of the parameters of a class which have a default.
+
+    :param cls: The class
+    """
+
+    return {
+        k: v.default
+        for k, v in get_parameters(cls).items()
+        if v.default is not None
+    }
+
+
 class ParameterMeta(type):
     def __new__(mcls, name, bases, attrs, **kwargs):
 
-- 
2.43.0


From 26f87f0ff311c3f1fe7b9483ea64c44d33e467c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 22/66] fix: always restore the normalization parameter

It was only known once it had been read, so draw_distance(normalize=True) of
a distribution that had never been evaluated raised an UnboundLocalError, and
an exception raised by the density left it at unity.
---
 popsynth/distribution.py     | 57 ++++++++++++++++++++++++------------
 popsynth/population_synth.py | 29 ++++--------------
 2 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 8a8a190..d34a27c 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -1,4 +1,5 @@
 import abc
+from contextlib import contextmanager
 from dataclasses import dataclass
 from typing import Dict, Optional, Union
 
@@ -15,6 +16,7 @@ from popsynth.utils.meta import (
     Parameter,
     ParameterMeta,
     get_default_values,
+    get_parameters,
 )
 from popsynth.utils.progress_bar import progress_bar
 from popsynth.utils.registry import distribution_registry
@@ -51,6 +53,12 @@ class Distribution(
         )
         self._normalization_parameter: Optional[str] = None
 
+        for k, v in get_parameters(type(self)).items():
+
+            if v.is_normalization:
+
+                self._normalization_parameter = k
+
         self._seed = seed  # type: int
         self._name = name  # type: str
         self._form = form  # type: str
@@ -60,12 +68,37 @@ class Distribution(
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        return self._parameter_storage.get(self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
         self._parameter_storage[self._normalization_parameter] = value
 
+    @contextmanager
+    def unit_normalization(self):
+        """
+        Set the normalization parameter, if there is one, to unity
+        for the duration of a context
+        """
+
+        if self._normalization_parameter is None:
+
+            yield
+
+            return
+
+        old_value = self.normalization_parameter
+
+        self.normalization_parameter = 1
+
+        try:
+
+            yield
+
+        finally:
+
+            self.normalization_parameter = old_value
+
     @property
     def name(self) -> str:
         """
@@ -326,19 +359,12 @@ class SpatialDistribution(Distribution):
 
             # set the prefactor to unity
 
-            if self._normalization_parameter is not None:
-
-                old_value = self.normalization_parameter
-                self.normalization_parameter = 1
+            with self.unit_normalization():
 
-            integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
+                integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
 
             dNdr_norm = lambda r: dNdr(r) / integral
 
-            if self._normalization_parameter is not None:
-
-                self.normalization_parameter = old_value
-
         else:
 
             dNdr_norm = dNdr
@@ -383,16 +409,9 @@ class SpatialDistribution(Distribution):
         # now compute the differential probability
         # of the distance draws
 
-        if self._normalization_parameter is not None:
-
-            old_value = self.normalization_parameter
-            self.normalization_parameter = 1
-
-        self._probability = dNdr_norm(self._distances)
+        with self.unit_normalization():
 
-        if self._normalization_parameter is not None:
-
-            self.normalization_parameter = old_value
+            self._probability = dNdr_norm(self._distances)
 
 
 class LuminosityDistribution(Distribution):
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8d6e2fc..de930f2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1012,32 +1012,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 log.info("The population is being normalized such that")
                 log.info("the integral over N * f(z) * dV/dz = N")
 
-                old_value = None
+                log.info('setting normalization to unity for integration')
 
-                if (
-                    self._spatial_distribution._normalization_parameter
-                    is not None
-                ):
+                with self._spatial_distribution.unit_normalization():
 
-                    old_value = (
-                        self._spatial_distribution.normalization_parameter
-                    )
-                    log.info('setting normalization to unity for integration')
-                    self._spatial_distribution.normalization_parameter = 1
-
-                integral = integrate.quad(
-                    dNdr, 0.0, self._spatial_distribution.r_max
-                )[0]
-
-                if old_value is not None:
-
-                    self._spatial_distribution.normalization_parameter = (
-                        old_value
-                    )
-
-                    log.info(
-                        f"normalization parameter set back to {self._spatial_distribution.normalization_parameter}"
-                    )
+                    integral = integrate.quad(
+                        dNdr, 0.0, self._spatial_distribution.r_max
+                    )[0]
 
                 dNdr_norm = lambda r: dNdr(r) / integral
 
-- 
2.43.0


From 033175a563d58782c1e2ad588981b29189cae77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 23/66] fix: sample normalized distances from the normalized
 density

Without progress bars the density was compared unnormalized with the maximum
of the normalized one, so the distances did not follow the distribution.
---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index d34a27c..7bbd208 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -401,7 +401,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From c5c254b914569e3a53ceef1b9a7154970bd63c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 24/66] fix: sample and integrate a broken power law with an
 index of -1

The integral and the inverse of that piece are logarithmic; they were not
numbers.
---
 popsynth/distributions/bpl_distribution.py | 58 ++++++++++++++++------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..5d74be6 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,43 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(x0, x1, a):
+    """
+    Integrate a power law between bounds.
+
+    :param x0: Lower bound
+    :param x1: Upper bound
+    :param a: Power law index
+    """
+
+    if a == -1:
+
+        return np.log(x1 / x0)
+
+    return (np.power(x1, a + 1.0) - np.power(x0, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, x0, x1, a):
+    """
+    Inverse transform sample a power law between bounds.
+
+    :param u: Uniform random number on {0,1}
+    :param x0: Lower bound
+    :param x1: Upper bound
+    :param a: Power law index
+    """
+
+    if a == -1:
+
+        return x0 * np.power(x1 / x0, u)
+
+    return np.power(
+        u * (np.power(x1, a + 1.0) - np.power(x0, a + 1.0))
+        + np.power(x0, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +114,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +188,10 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 0ead377552b9feddcabe537f4b7d080881412451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 25/66] fix: evaluate the power law densities for integers and
 at their bounds

The density of an array of integers was truncated to zero, and the broken
power law was zero at its bounds, which the sampler can return.
---
 popsynth/distributions/bpl_distribution.py    | 6 +++---
 popsynth/distributions/pareto_distribution.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 5d74be6..516643b 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -140,7 +140,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     """
 
     # creatre a holder for the values
-    x = np.atleast_1d(x)
+    x = np.atleast_1d(np.asarray(x, dtype=float))
 
     out = np.zeros_like(x)
 
@@ -149,14 +149,14 @@ def bpl(x, x0, x1, x2, a1, a2):
     norm = 1.0 / C
 
     # create an index to select each piece of the function
-    idx = (x > x0) & (x < x1)
+    idx = (x >= x0) & (x < x1)
 
     # compute the lower power law
     out[idx] = np.power(x[idx], a1)
 
     # compute the upper power law
 
-    idx = (x >= x1) & (x < x2)
+    idx = (x >= x1) & (x <= x2)
 
     out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
 
diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..8145981 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,6 +32,8 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
+        L = np.asarray(L, dtype=float)
+
         out = np.zeros_like(L)
 
         idx = L >= self.Lmin
-- 
2.43.0


From 26c3b1ae441373a94421a3facb99b6bdab27b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 26/66] fix: give the broken power law sampler its sigma
 parameter

It is documented and used by the observation sampler but was never declared.
---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..e4eca71 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -109,6 +109,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From ae1d49db7bcb5ad3b5b831541b265f391b13b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 27/66] fix: sample the power law from the seeded random
 numbers

A compiled function has a random state of its own, which draw_survey does not
seed, so surveys with a power law sampler could not be reproduced. Integer
bounds with a negative integer index raised as well.
---
 popsynth/aux_samplers/plaw_aux_sampler.py | 28 +++++++----------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index e4eca71..d3dfe27 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -1,4 +1,3 @@
-import numba as nb
 import numpy as np
 import scipy.stats as stats
 
@@ -157,27 +156,16 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
             self._obs_values = self._true_values
 
 
-@nb.njit(fastmath=True)
 def _sample_power_law(xmin, xmax, alpha, size):
 
-    out = np.empty(size)
+    u = np.random.uniform(0, 1, size=size)
 
-    for i in range(size):
+    if alpha != -1.0:
 
-        u = np.random.uniform(0, 1)
-
-        if alpha != -1.0:
-
-            x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
-                + np.power(xmin, alpha + 1),
-                1.0 / (alpha + 1.0),
-            )
-
-        else:
-
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
-
-        out[i] = x
+        return np.power(
+            (np.power(xmax, alpha + 1.0) - np.power(xmin, alpha + 1.0)) * u
+            + np.power(xmin, alpha + 1.0),
+            1.0 / (alpha + 1.0),
+        )
 
-    return out
+    return xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
-- 
2.43.0


From e0ad759c8a881141d61d3f4a33bc2b6d5effa303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 28/66] fix: truncate the log10 normal sampler at its lower
 bound

The bound was converted with the natural logarithm.
---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From 14cea96d1c45b4ba4c0a0a519b4a3a06f04310d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 29/66] fix: sample declinations instead of polar angles

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..71970ea 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.pi / 2 - np.arccos(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From e8f7dfb8ea44bd87476c217fc3852989703b107c Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 30/66] fix: do not bound a log normal sampler whose lower
 bound is zero

The lower bound was replaced by the 1e-5 quantile of the untruncated
distribution, which may be larger than the upper bound.
---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index affd06d..6ef47fb 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -42,7 +42,7 @@ class TruncatedLogNormalAuxSampler(AuxiliarySampler):
     def true_sampler(self, size: int):
 
         if self.lower == 0:
-            a = stats.norm.ppf(1e-5, loc=self.mu, scale=self.tau)
+            a = -np.inf
         else:
             a = np.log(self.lower)
 
@@ -117,7 +117,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
     def true_sampler(self, size: int):
 
         if self.lower == 0:
-            a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
+            a = -np.inf
         else:
             a = np.log10(self.lower)
 
-- 
2.43.0


From 19bbf08d75ddec750139a5e0fcf97ac151f57e10 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 31/66] fix: do not exchange the angles of the spiral galaxy

The polar angle was stored as the azimuth and the winding angle of the
spiral as the polar angle, such that declinations exceeded the poles.
---
 popsynth/distributions/spiral_galaxy_distribution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..13f67ff 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -98,8 +98,10 @@ class SpiralGalaxyDistribution(SphericalDistribution):
             0, scale=0.07 * np.abs(self._distances), size=size
         )
 
-        phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
+        # theta is the polar angle and phi the azimuth
 
-        self._theta = spiraltheta
+        self._theta = np.arccos(
+            zpos / np.sqrt(self._distances ** 2 + zpos ** 2)
+        )
 
-        self._phi = phi
+        self._phi = np.mod(spiraltheta, 2 * np.pi)
-- 
2.43.0


From 989919b5dfc9a89df4eaef93e2ad803aa5c10b8e Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 32/66] fix: hand on the form of the spiral galaxy distribution

---
 popsynth/distributions/spiral_galaxy_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index 13f67ff..19af608 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -43,6 +43,9 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         spatial_form = r"\rho \Big(\frac{r + R_1}{R_0+R_1}\Big)^a "
         spatial_form += r"\exp\Big[-b \frac{r-R_0}{R_0 + R_1}\Big]"
 
+        if form is None:
+            form = spatial_form
+
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
             name=name,
-- 
2.43.0


From 37c18de1c093bc94151ddd63522293235f2550ca Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 33/66] fix: create the log directory if two processes import
 at once

---
 popsynth/utils/package_data.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/popsynth/utils/package_data.py b/popsynth/utils/package_data.py
index 3b4193b..58dee03 100644
--- a/popsynth/utils/package_data.py
+++ b/popsynth/utils/package_data.py
@@ -15,9 +15,7 @@ def get_path_of_log_dir() -> Path:
 
     p: Path = Path("~/.log/popsynth").expanduser()
 
-    if not p.exists():
-
-        p.mkdir(parents=True)
+    p.mkdir(parents=True, exist_ok=True)
 
     return p
 
-- 
2.43.0


From 13bf4940e76cd471a1213da8739f7294a3e1c8f7 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 34/66] fix: write the configuration file in one piece

An import which ran while another one wrote its defaults, or after one
which was interrupted, read a configuration cut short.
---
 popsynth/utils/configuration.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/popsynth/utils/configuration.py b/popsynth/utils/configuration.py
index 0bda8a7..a4e83af 100644
--- a/popsynth/utils/configuration.py
+++ b/popsynth/utils/configuration.py
@@ -1,3 +1,5 @@
+import os
+import tempfile
 from dataclasses import dataclass
 from pathlib import Path
 
@@ -69,6 +71,22 @@ else:
     # Make directory if needed
     _config_path.mkdir(parents=True, exist_ok=True)
 
-    with _config_file.open("w") as f:
+    # Write the file under a name of its own and move it into place
+    # such that nobody ever reads a file which is only written in part
+    _file_descriptor, _temporary_file = tempfile.mkstemp(
+        prefix=f".{_config_name}.", dir=_config_path
+    )
+
+    try:
+
+        with os.fdopen(_file_descriptor, "w") as f:
+
+            f.write(OmegaConf.to_yaml(popsynth_config))
+
+        os.replace(_temporary_file, _config_file)
+
+    except BaseException:
+
+        os.unlink(_temporary_file)
 
-        OmegaConf.save(config=popsynth_config, f=f.name)
+        raise
-- 
2.43.0


From d0c5f34f97599ba2cd693a19541e735d0f5ec263 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 35/66] fix: re-activate the logs after they were silenced
 twice

The levels of the silenced logs were stored as the ones to restore.
---
 popsynth/utils/logging.py | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..beb709f 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -126,15 +126,31 @@ class LoggingState(object):
             popsynth_console_log_handler.level
         )
 
+        # remember which of the logs are silenced
+
+        self._silenced = set()
+
     def _store_state(self):
 
-        self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
-        self.popsynth_console_log_handler_state = (
-            popsynth_console_log_handler.level
-        )
+        # the state to restore after the logs were silenced
+        # is the one before they were silenced
+
+        if self.popsynth_usr_log_handler not in self._silenced:
+
+            self.popsynth_usr_log_handler_state = (
+                self.popsynth_usr_log_handler.level
+            )
+
+        if self.popsynth_console_log_handler not in self._silenced:
+
+            self.popsynth_console_log_handler_state = (
+                self.popsynth_console_log_handler.level
+            )
 
     def restore_last_state(self):
 
+        self._silenced.clear()
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
@@ -151,6 +167,10 @@ class LoggingState(object):
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
 
+        self._silenced.update(
+            [self.popsynth_usr_log_handler, self.popsynth_console_log_handler]
+        )
+
     def loud_logs(self):
 
         # store the state
@@ -161,6 +181,8 @@ class LoggingState(object):
         self.popsynth_usr_log_handler.setLevel(logging.INFO)
         self.popsynth_console_log_handler.setLevel(logging.INFO)
 
+        self._silenced.clear()
+
     def debug_logs(self):
 
         # store the state
@@ -169,6 +191,14 @@ class LoggingState(object):
         # silence the logs
         self.popsynth_console_log_handler.setLevel(logging.DEBUG)
 
+        self._silenced.discard(self.popsynth_console_log_handler)
+
+    def update_console_level(self, level):
+
+        self.popsynth_console_log_handler.setLevel(level)
+
+        self._silenced.discard(self.popsynth_console_log_handler)
+
 
 _log_state = LoggingState(
     popsynth_usr_log_handler,
@@ -196,7 +226,7 @@ def activate_warnings():
 
 def update_logging_level(level):
 
-    popsynth_console_log_handler.setLevel(level)
+    _log_state.update_console_level(level)
 
 
 def silence_logs():
-- 
2.43.0


From 0fd12a30e0374989fcf77a6590aeb8f0365ea6cb Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 36/66] fix: show the latent fluxes as the true fluxes

The true fluxes, and the tails of the arrows, were plotted at the observed fluxes.
---
 popsynth/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index a67bf77..4d97625 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -978,7 +978,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -994,12 +994,14 @@ class Population(object):
         try:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min(
+                    [self._fluxes.latent.min(), self._fluxes.selected.min()]
+                )
             )
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.min())
+            ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
@@ -1090,7 +1092,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.selected.latent,
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 71f140dbce252b333cf10f92be2fab315deb214b Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 37/66] fix: respect use_log when displaying the fluxes on a
 sphere

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 4d97625..5cbf924 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1191,7 +1191,7 @@ class Population(object):
 
         x, y, z = _create_sphere_variables(self._r_max, distance, theta, phi)
 
-        _, colors = array_to_cmap(fluxes, cmap, use_log=True)
+        _, colors = array_to_cmap(fluxes, cmap, use_log=use_log)
 
         ipv.scatter(x, y, z, color=colors, marker="sphere", **kwargs)
 
-- 
2.43.0


From 09e42a6d412a91b2e4bb196458b98fe3b589378f Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 38/66] fix: write numpy numbers to the YAML file of a synth

They raised an error, which left a truncated file behind.
---
 popsynth/population_synth.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index de930f2..011d315 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -194,11 +194,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :param file_name: the file name of the output YAML
         :type file_name: str
         """
+        data = _to_builtin_types(self.to_dict())
+
         with open(file_name, "w") as f:
 
             yaml.dump(
                 stream=f,
-                data=self.to_dict(),
+                data=data,
                 default_flow_style=False,
                 sort_keys=False,
                 Dumper=yaml.SafeDumper,
@@ -1559,3 +1561,27 @@ class PopulationSynth(object, metaclass=ABCMeta):
             self._graph.add_edge(v.name, sampler.name)
 
             self._add_to_graph(v)
+
+
+def _to_builtin_types(value):
+    """
+    Replace the numpy scalars and arrays in a (nested) dictionary
+    or list, which cannot be written to a YAML file
+    """
+
+    if isinstance(value, dict):
+
+        return {
+            _to_builtin_types(k): _to_builtin_types(v)
+            for k, v in value.items()
+        }
+
+    if isinstance(value, (list, tuple)):
+
+        return [_to_builtin_types(v) for v in value]
+
+    if isinstance(value, (np.generic, np.ndarray)):
+
+        return value.tolist()
+
+    return value
-- 
2.43.0


From 8128261081e7f5ee4fe45979bdb778558caae89c Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 39/66] fix: write a population which was loaded from a file

Its numpy booleans were rejected, which left a truncated file behind.
---
 popsynth/utils/hdf5_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index d7a2f37..7819ed1 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -51,9 +51,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 raise ValueError("Cannot save %s type" % type(item))
 
-        if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
-        ):
+        if isinstance(item, (np.ndarray, np.generic, str, bytes, float, int)):
 
             h5file[path + "/" + key] = item
 
-- 
2.43.0


From 2692ed11953f4c6b5b5fc91b0334fb05a6e0627b Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 40/66] fix: let samplers share a selection object

A selection attached to two samplers was applied twice as it was
drawn for the last one.
---
 popsynth/auxiliary_sampler.py | 13 +++++++++++--
 popsynth/population_synth.py  |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index d1e364b..eb977b4 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -1,4 +1,5 @@
 import abc
+import copy
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -216,6 +217,7 @@ class AuxiliarySampler(
         self._has_secondary: bool = False
         self._is_sampled: bool = False
         self._selector: SelectionProbability = UnitySelection()
+        self._applied_selector: Optional[SelectionProbability] = None
         self._uses_distance: bool = uses_distance
         self._uses_luminosity: bool = uses_luminosity
         self._uses_sky_position: bool = uses_sky_position
@@ -293,6 +295,7 @@ class AuxiliarySampler(
             raise AssertionError()
 
         self._selector = selector  # type: SelectionProbability
+        self._applied_selector = None
 
     def _apply_selection(self) -> None:
         """
@@ -420,6 +423,11 @@ class AuxiliarySampler(
 
             self._apply_selection()
 
+            # the selector may be shared with other samplers, which
+            # will draw their own selections from it
+
+            self._applied_selector = copy.copy(self._selector)
+
             self._probability = self._compute_probability()
 
     def _compute_probability(self) -> Optional[np.ndarray]:
@@ -448,6 +456,7 @@ class AuxiliarySampler(
             self._is_sampled = False
             self._obs_values = None  # type: ArrayLike
             self._true_values = None  # type: ArrayLike
+            self._applied_selector = None
 
             self._selector.reset()
 
@@ -518,7 +527,7 @@ class AuxiliarySampler(
                 self._name,
                 self._true_values,
                 self._obs_values,
-                self._selector,
+                self._applied_selector or self._selector,
                 self.probability,
             )
         )
@@ -663,7 +672,7 @@ class AuxiliarySampler(
         :returns:
 
         """
-        return self._selector.selection
+        return (self._applied_selector or self._selector).selection
 
     @property
     def selector(self) -> SelectionProbability:
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 011d315..f62300e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1125,7 +1125,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     self._derived_luminosity_sampler.name,
                     self._derived_luminosity_sampler.true_values,
                     self._derived_luminosity_sampler.obs_values,
-                    self._derived_luminosity_sampler.selector,
+                    self._derived_luminosity_sampler._applied_selector,
                     self._derived_luminosity_sampler.probability,
                 )
             )
-- 
2.43.0


From 07f1d10509ce63fd012d7d4d35dc46ab50cfec86 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 41/66] fix: let the log uniform density vanish out of its
 bounds

---
 popsynth/distributions/uniform_distribution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/uniform_distribution.py b/popsynth/distributions/uniform_distribution.py
index c986264..2d95ad4 100644
--- a/popsynth/distributions/uniform_distribution.py
+++ b/popsynth/distributions/uniform_distribution.py
@@ -41,7 +41,15 @@ class LogUniLuminiosityDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return 1.0 / (L * np.log(self.Lmax / self.Lmin))
+        L = np.asarray(L, dtype=float)
+
+        out = np.zeros_like(L)
+
+        idx = (L >= self.Lmin) & (L <= self.Lmax)
+
+        out[idx] = 1.0 / (L[idx] * np.log(self.Lmax / self.Lmin))
+
+        return out
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From f19dfec7d5dcb553f399569c9653bd90e88c677f Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 42/66] fix: do not register a derived luminosity sampler and a
 sampler of the same name

---
 popsynth/population_synth.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f62300e..b3856d6 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -841,6 +841,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(auxiliary_sampler, DerivedLumAuxSampler):
 
+            if auxiliary_sampler.name in self._auxiliary_observations:
+
+                log.error(f"{auxiliary_sampler.name} is already registered!")
+
+                raise RuntimeError()
+
             log.info(
                 f"registering derived luminosity sampler: {auxiliary_sampler.name}"
             )
@@ -860,7 +866,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 raise RuntimeError()
 
-            if auxiliary_sampler.name in self._auxiliary_observations:
+            if auxiliary_sampler.name in self._auxiliary_observations or (
+                self._has_derived_luminosity
+                and auxiliary_sampler.name
+                == self._derived_luminosity_sampler.name
+            ):
 
                 log.error(f"{auxiliary_sampler.name} is already registered!")
 
-- 
2.43.0


From c0e3c9465bc51d778b1dfb4983549dc769dbbac0 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 43/66] fix: let reductions and quantiles of simulated
 variables work

Reductions which keep the dimension, as used by std and var, raised, as
their results are not as long as the selection. So did quantiles.
---
 popsynth/simulated_variable.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index e83acf5..cc50fb6 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -144,7 +144,7 @@ class SimulatedVariable(np.ndarray):
 
         obs = self.view(np.ndarray).__getitem__(item)
 
-        if not isinstance(obs, np.ndarray):
+        if not isinstance(obs, np.ndarray) or obs.ndim == 0:
 
             return obs
 
@@ -237,7 +237,12 @@ class SimulatedVariable(np.ndarray):
 
             if output is None:
 
-                if isinstance(result, np.ndarray):
+                # reductions along the objects have
+                # no latent values and no selection
+
+                if isinstance(result, np.ndarray) and result.shape[
+                    :1
+                ] == np.shape(self._selection):
 
                     out = SimulatedVariable(
                         result, latent_result, self._selection
-- 
2.43.0


From 35c0582edeb7d12780c8fd2a7df2f8932cc8e9f3 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 44/66] fix: do not share latent values between a simulated
 variable and its copies

astype, flatten and the like copied the observed values only, such that
in-place operations on the copy changed the latent values of the original.
---
 popsynth/simulated_variable.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index cc50fb6..aedc88a 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -118,7 +118,16 @@ class SimulatedVariable(np.ndarray):
 
         self._selection = getattr(obj, "_selection", None)
 
-        self._latent_values = getattr(obj, "_latent_values", None)
+        latent_values = getattr(obj, "_latent_values", None)
+
+        # a copy of the observed values comes with a copy of the latent
+        # ones, or operations performed in place would change the original
+
+        if latent_values is not None and not np.may_share_memory(self, obj):
+
+            latent_values = np.array(latent_values)
+
+        self._latent_values = latent_values
 
     def copy(self, order="C") -> "SimulatedVariable":
         """
-- 
2.43.0


From 44a22a36df00fd936d6d30114aea53f0f6c7f68f Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 45/66] fix: let operations on simulated variables be
 conditional on one

An operation with a simulated variable as its where argument, as in
numpy.fix, was refused.
---
 popsynth/simulated_variable.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index aedc88a..fcf261d 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -182,6 +182,13 @@ class SimulatedVariable(np.ndarray):
         outputs = out
         out_no = []
         latent_kwargs = dict(kwargs)
+
+        if isinstance(kwargs.get("where", None), SimulatedVariable):
+
+            where = kwargs["where"]
+            kwargs["where"] = where.view(np.ndarray)
+            latent_kwargs["where"] = where._latent_values.view(np.ndarray)
+
         if outputs:
 
             # the results are computed in copies of the outputs, so that
-- 
2.43.0


From 4f61012d2519b75cc47a9b1521c0fc619d493c7e Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 46/66] fix: keep the latent values of a simulated variable
 when pickling it

An unpickled variable, and thus an unpickled population, had neither latent
values nor a selection.
---
 popsynth/simulated_variable.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index fcf261d..75fed6d 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -149,6 +149,20 @@ class SimulatedVariable(np.ndarray):
 
         return self.copy()
 
+    def __reduce__(self):
+
+        # the state of an array does not have the latent
+        # values and the selection
+
+        return (
+            SimulatedVariable,
+            (
+                self.view(np.ndarray),
+                self._latent_values,
+                self._selection,
+            ),
+        )
+
     def __getitem__(self, item):
 
         obs = self.view(np.ndarray).__getitem__(item)
-- 
2.43.0


From 58e1dc423fc2ff75c9324bae638c1272efc59090 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 47/66] fix: let a population be deep copied

The storage of the auxiliary quantities could not be copied, as its
constructor did not take the contents.
---
 popsynth/auxiliary_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index eb977b4..2a93614 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -128,7 +128,7 @@ class SecondaryContainer(object):
 
 
 class SecondaryStorage(DotMap):
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
         """
         A container for secondary samplers
 
@@ -136,7 +136,7 @@ class SecondaryStorage(DotMap):
 
         """
 
-        super(SecondaryStorage, self).__init__()
+        super(SecondaryStorage, self).__init__(*args, **kwargs)
 
     def add_secondary(self, secondary_values: SecondaryContainer) -> None:
         """
-- 
2.43.0


From a6fd7cf29ddf6737b1cf6a3aca525deb76732af1 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 48/66] fix: let the densities of positive luminosities vanish
 for negative ones

---
 .../distributions/log10_normal_distribution.py     | 14 +++++++++++---
 popsynth/distributions/log_normal_distribution.py  | 12 ++++++++++--
 popsynth/distributions/schechter_distribution.py   | 14 +++++++++++---
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 237fbfd..6702f3f 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,12 +32,20 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (
-            1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))
+        L = np.asarray(L, dtype=float)
+
+        out = np.zeros_like(L)
+
+        idx = L > 0
+
+        out[idx] = (
+            1.0 / (self.tau * L[idx] * np.log(10) * np.sqrt(2 * np.pi))
         ) * np.exp(
-            -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
+            -((np.log10(L[idx]) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
+        return out
+
     def draw_luminosity(self, size=1):
 
         x = np.random.normal(loc=self.mu, scale=self.tau, size=size)
diff --git a/popsynth/distributions/log_normal_distribution.py b/popsynth/distributions/log_normal_distribution.py
index 1cb783a..c5c13d1 100644
--- a/popsynth/distributions/log_normal_distribution.py
+++ b/popsynth/distributions/log_normal_distribution.py
@@ -34,10 +34,18 @@ class LogNormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
-            -((np.log(L) - self.mu) ** 2) / (2 * self.tau**2)
+        L = np.asarray(L, dtype=float)
+
+        out = np.zeros_like(L)
+
+        idx = L > 0
+
+        out[idx] = (1.0 / (self.tau * L[idx] * np.sqrt(2 * np.pi))) * np.exp(
+            -((np.log(L[idx]) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
+        return out
+
     def draw_luminosity(self, size=1):
 
         return np.random.lognormal(mean=self.mu, sigma=self.tau, size=size)
diff --git a/popsynth/distributions/schechter_distribution.py b/popsynth/distributions/schechter_distribution.py
index 7e84e76..7b42f73 100644
--- a/popsynth/distributions/schechter_distribution.py
+++ b/popsynth/distributions/schechter_distribution.py
@@ -36,12 +36,20 @@ class SchechterDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (
-            L**self.alpha
-            * np.exp(-L / self.Lmin)
+        L = np.asarray(L, dtype=float)
+
+        out = np.zeros_like(L)
+
+        idx = L >= 0
+
+        out[idx] = (
+            L[idx] ** self.alpha
+            * np.exp(-L[idx] / self.Lmin)
             / (self.Lmin ** (1 + self.alpha) * sf.gamma(1 + self.alpha))
         )
 
+        return out
+
     def draw_luminosity(self, size=1):
 
         xs = 1 - np.random.uniform(size=size)
-- 
2.43.0


From 47dea25477382ea5ee5001e6c893533dd4359727 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 49/66] fix: let a survey with the samplers of right ascension
 and declination be drawn

---
 popsynth/population.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index 5cbf924..ae087ae 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -191,6 +191,17 @@ class Population(object):
         if auxiliary_quantities is not None:
 
             for k, v in auxiliary_quantities.items():
+
+                if isinstance(getattr(type(self), k, None), property):
+
+                    # e.g. ra and dec
+
+                    log.warning(
+                        f"{k} is a property of the population, the values of the auxiliary sampler are only stored as an auxiliary quantity"
+                    )
+
+                    continue
+
                 setattr(
                     self,
                     k,
-- 
2.43.0


From e4324ecfd19d2fce36c9ee0710f1ccb4539bbc3f Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 50/66] fix: display the fluxes of a population without objects

---
 popsynth/population.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index ae087ae..d75fd4c 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1012,7 +1012,11 @@ class Population(object):
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.latent.min())
+            # nothing is detected
+
+            if self.n_objects > 0:
+
+                ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
-- 
2.43.0


From 009ea0d4d304cf95d78009380f7840dd0956d894 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 51/66] fix: do not cut off the faintest true fluxes when the
 observed fluxes are displayed

---
 popsynth/population.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index d75fd4c..2631d16 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1065,8 +1065,11 @@ class Population(object):
         # ax.set_xscale('log')
         ax.set_yscale("log")
 
+        # do not hide true fluxes that were plotted on
+        # the same axis
+
         ax.set_ylim(
-            bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+            bottom=min([self._fluxes.min(), self._fluxes.latent.min()])
         )
         ax.set_xlim(right=self._r_max)
 
-- 
2.43.0


From e8889348bff571dacfd2190625404ed16e43ffb7 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 52/66] fix: keep the sphere of detected fluxes when no flux is
 hidden

---
 popsynth/population.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2631d16..519558b 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1186,9 +1186,13 @@ class Population(object):
     ):
 
         if len(fluxes) == 0:
-            log.warning("There are no detections to display")
+            log.warning("There are no fluxes to display")
+
+            # keep what has been displayed already
+
+            if fig is None:
 
-            return
+                return
 
         if fig is None:
 
@@ -1207,11 +1211,15 @@ class Population(object):
 
             distance = distances
 
-        x, y, z = _create_sphere_variables(self._r_max, distance, theta, phi)
+        if len(fluxes) > 0:
+
+            x, y, z = _create_sphere_variables(
+                self._r_max, distance, theta, phi
+            )
 
-        _, colors = array_to_cmap(fluxes, cmap, use_log=use_log)
+            _, colors = array_to_cmap(fluxes, cmap, use_log=use_log)
 
-        ipv.scatter(x, y, z, color=colors, marker="sphere", **kwargs)
+            ipv.scatter(x, y, z, color=colors, marker="sphere", **kwargs)
 
         r_value = fig
 
-- 
2.43.0


From d1d2144c1310c41a96fd0fc9228a5304037883c3 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 53/66] fix: do not cut off observed fluxes that are brighter
 than all true fluxes

---
 popsynth/population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 519558b..13c0e44 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1066,10 +1066,11 @@ class Population(object):
         ax.set_yscale("log")
 
         # do not hide true fluxes that were plotted on
-        # the same axis
+        # the same axis, nor observed fluxes above them
 
         ax.set_ylim(
-            bottom=min([self._fluxes.min(), self._fluxes.latent.min()])
+            bottom=min([self._fluxes.min(), self._fluxes.latent.min()]),
+            top=max([ax.get_ylim()[1], self._fluxes.selected.max()]),
         )
         ax.set_xlim(right=self._r_max)
 
-- 
2.43.0


From fed8c2ccc4abbfd55838b0c48e879576a4dd938e Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 54/66] fix: do not derive luminosities from those of a former
 survey

---
 popsynth/population_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b3856d6..6e28b5b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1110,6 +1110,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._spatial_distribution.spatial_values
             )
 
+            # there are no luminosities yet, and those of a former
+            # survey must not be passed on to the secondary samplers
+
+            self._derived_luminosity_sampler.set_luminosity(None)
+
             # sample the true and obs
             # values which are held internally
 
-- 
2.43.0


From 9214bc87543bae44be73cd56695b7bb5aa7fc561 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 55/66] fix: draw the distance selection when it is also the
 flux selection

---
 popsynth/population_synth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 6e28b5b..1effb1a 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1350,7 +1350,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
-        # the distance selection is applied to the detected objects
+        # the distance selection is drawn for the detected objects,
+        # even if it has been used for all of the objects above
+
+        self._distance_selector.reset()
 
         detected = global_selection.selection
 
-- 
2.43.0


From 8bd0e1cf0a63d4e3c798d810127075c8a6b99882 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 56/66] fix: apply the flux selection to the distances and
 luminosities of this survey

---
 popsynth/population_synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 1effb1a..736aaf2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1288,6 +1288,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
         log.info("applying selection to fluxes")
 
         # pass the values the plux selector and draw the selection
+        self._flux_selector.set_distance(distances)
+        self._flux_selector.set_luminosity(luminosities)
         self._flux_selector.set_observed_flux(flux_obs)
 
         self._flux_selector.select(n)
-- 
2.43.0


From 087765de423eff61645f66dd23207e1a0006c982 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 57/66] fix: change the latent values along with the observed
 ones in place of selected entries

---
 popsynth/simulated_variable.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 75fed6d..d16ba29 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -177,6 +177,20 @@ class SimulatedVariable(np.ndarray):
 
         return SimulatedVariable(obs, latent, selection)
 
+    def __setitem__(self, item, value):
+
+        super().__setitem__(item, value)
+
+        # the latent values come along, as for x[[0, 2]] *= 2
+
+        if (
+            isinstance(value, SimulatedVariable)
+            and np.shape(self._latent_values) == self.shape
+            and np.shape(value.latent) == value.shape
+        ):
+
+            self._latent_values.__setitem__(item, value.latent)
+
     def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
         args = []
         in_no = []
-- 
2.43.0


From bbddb03e370f5b79fad9a65bf5af5b2f088765f4 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 58/66] fix: do not normalize the broken power law numerically

---
 popsynth/distributions/bpl_distribution.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 516643b..8ba112c 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.integrate as integrate
 import scipy.stats as stats
 
 from popsynth.distribution import DistributionParameter, LuminosityDistribution
@@ -46,15 +45,11 @@ class BPLDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        f = lambda ll: bpl(
-            ll, self.Lmin, self.Lbreak, self.Lmax, self.alpha, self.beta
-        )
-
-        integrand = integrate.quad(f, self.Lmin, self.Lmax)[0]
+        # this is already normalized
 
-        # normalize
-
-        return f(L) / integrand
+        return bpl(
+            L, self.Lmin, self.Lbreak, self.Lmax, self.alpha, self.beta
+        )
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 14e02a10626fa5fcbe89ccb3dea81baecf9962ea Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 59/66] fix: let a broken power law have integer parameters

---
 popsynth/distributions/bpl_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 8ba112c..9efb9d4 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -110,7 +110,7 @@ def integrate_pl(x0, x1, x2, a1, a2):
 
     # compute the integral of each piece analytically
     int_1 = _integrate_piece(x0, x1, a1)
-    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
+    int_2 = np.power(float(x1), a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -153,7 +153,7 @@ def bpl(x, x0, x1, x2, a1, a2):
 
     idx = (x >= x1) & (x <= x2)
 
-    out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
+    out[idx] = np.power(x[idx], a2) * np.power(float(x1), a1 - a2)
 
     return out * norm
 
-- 
2.43.0


From be9fe5e6badf09cf8f8c4a3928d33bb02c35b261 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 60/66] fix: let the cosmological power law density act on
 integer redshifts

---
 popsynth/distributions/cosmological_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/cosmological_distribution.py b/popsynth/distributions/cosmological_distribution.py
index 8607f7c..3137499 100644
--- a/popsynth/distributions/cosmological_distribution.py
+++ b/popsynth/distributions/cosmological_distribution.py
@@ -202,7 +202,7 @@ class ZPowerCosmoDistribution(CosmologicalDistribution):
 
 @nb.njit(fastmath=True)
 def _zp_dndv(z, Lambda, delta):
-    return Lambda * np.power(z + 1, delta)
+    return Lambda * np.power(z + 1.0, delta)
 
 
 # class MergerDistribution(CosmologicalDistribution):
-- 
2.43.0


From 34079792df539abfb3fbaddf4c3080541ae47f40 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 61/66] fix: look for the maximum of the density between the
 points of the grid

---
 popsynth/distribution.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 7bbd208..69f5d05 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -6,6 +6,7 @@ from typing import Dict, Optional, Union
 import numpy as np
 import pandas as pd
 import scipy.integrate as integrate
+import scipy.optimize as optimize
 from class_registry import AutoRegister
 from IPython.display import Markdown, Math, display
 from numpy.typing import ArrayLike
@@ -373,7 +374,18 @@ class SpatialDistribution(Distribution):
         tmp = np.linspace(
             0.0, self.r_max, 500, dtype=np.float64
         )  # type: ArrayLike
-        ymax = np.max(dNdr_norm(tmp))  # type: float
+        dNdr_tmp = dNdr_norm(tmp)  # type: ArrayLike
+        i_max = np.argmax(dNdr_tmp)  # type: int
+
+        # the maximum may lie between the points of the grid
+
+        res = optimize.minimize_scalar(
+            lambda r: -dNdr_norm(r),
+            bounds=(tmp[max(i_max - 1, 0)], tmp[min(i_max + 1, 499)]),
+            method="bounded",
+        )
+
+        ymax = max(np.max(dNdr_tmp), -res.fun)  # type: float
 
         # rejection sampling the distribution
         r_out = []
-- 
2.43.0


From 4db4ec6438558b6744e0abbc608ddcca85849158 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 62/66] fix: let issubclass work on the classes of popsynth

The subclass check used attributes of the pure Python ABCMeta of older
versions, which are not there, and raised an AttributeError for every class.
The check that every class has does what is meant.
---
 popsynth/utils/meta.py | 33 ---------------------------------
 1 file changed, 33 deletions(-)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index a1f14da..b9e3208 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -212,36 +212,3 @@ class ParameterMeta(type):
                         raise AssertionError("Can only have 1 normalization")
 
         return cls
-
-    def __subclasscheck__(cls, subclass):
-        """Override for issubclass(subclass, cls)."""
-        if not isinstance(subclass, type):
-            raise TypeError("issubclass() arg 1 must be a class")
-        # Check cache
-
-        # Check the subclass hook
-        ok = cls.__subclasshook__(subclass)
-        if ok is not NotImplemented:
-            assert isinstance(ok, bool)
-            if ok:
-                cls._abc_cache.add(subclass)
-            else:
-                cls._abc_negative_cache.add(subclass)
-            return ok
-        # Check if it's a direct subclass
-        if cls in getattr(subclass, "__mro__", ()):
-            cls._abc_cache.add(subclass)
-            return True
-        # Check if it's a subclass of a registered class (recursive)
-        for rcls in cls._abc_registry:
-            if issubclass(subclass, rcls):
-                cls._abc_cache.add(subclass)
-                return True
-        # Check if it's a subclass of a subclass (recursive)
-        for scls in cls.__subclasses__():
-            if issubclass(subclass, scls):
-                cls._abc_cache.add(subclass)
-                return True
-        # No dice; update negative cache
-        cls._abc_negative_cache.add(subclass)
-        return False
-- 
2.43.0


From 00b20476b8ca8453817e7af4548abb2c3f7d2ba3 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 63/66] fix: refuse more than one normalization parameter

The normalization parameters were never counted, so the error for several of
them could not be reached.
---
 popsynth/utils/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index b9e3208..b8d70cb 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -211,4 +211,6 @@ class ParameterMeta(type):
 
                         raise AssertionError("Can only have 1 normalization")
 
+                    norm_counter += 1
+
         return cls
-- 
2.43.0


From a96c25c234a86cb964153d4ed76da07bab7cac5f Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 64/66] fix: refuse samplers of a dictionary that are
 secondaries of each other

---
 popsynth/population_synth.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 736aaf2..27f810c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -757,6 +757,25 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     aux_samplers[secondary]
                 )
 
+        # samplers that depend on each other can not be drawn and
+        # would be dropped below
+
+        dependencies = nx.DiGraph()
+
+        for primary, secondaries in secondary_samplers.items():
+
+            for secondary in secondaries:
+
+                if secondary is not None:
+
+                    dependencies.add_edge(primary, secondary)
+
+        if not nx.is_directed_acyclic_graph(dependencies):
+
+            log.error("There are auxiliary samplers that depend on each other")
+
+            raise RuntimeError()
+
         # now we need to pop all the secondaries from the main
         # list so that we do not double add
 
-- 
2.43.0


From 2f9708c77d6af2206fc2349fac7437e7c55e1b38 Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 65/66] fix: refuse selections of different sizes instead of
 broadcasting

---
 .../selection_probability/selection_probability.py     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index c1efa26..f63c8b7 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -68,6 +68,16 @@ class SelectionProbability(
 
         log.debug(f"adding selection from {other.name} to {self.name}")
 
+        # one value for all objects would be broadcast
+
+        if np.shape(self._selection) != np.shape(other.selection):
+
+            log.error(
+                f"the selections {self.name} and {other.name} are not of the same size"
+            )
+
+            raise RuntimeError()
+
         new_selection = np.logical_and(self._selection, other.selection)
 
         out = DummySelection()
-- 
2.43.0


From 7b3f26737d6bdd3853bf9e6f0f0e4c79754edcea Mon Sep 17 00:00:00 2001
From: vp <vp@example.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 66/66] fix: let classes with fixed parameters be restored from
 their dictionary

---
 popsynth/utils/meta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index b8d70cb..4bdb10e 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -78,6 +78,12 @@ class Parameter(object):
 
         if not self._free:
 
+            # a restored object is given the value that it has
+
+            if value == self._default:
+
+                return
+
             log.error(f"{self.name} is fixed and cannot be set")
             raise RuntimeError()
 
-- 
2.43.0

